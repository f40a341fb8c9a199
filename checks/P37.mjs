// P37: logging options: every preset configuration times all command lines; every sink setting times every record.
import { mkdirSync, readFileSync, existsSync, readdirSync, rmSync } from "node:fs";
import { join } from "node:path";
import { pathToFileURL } from "node:url";
import { api, show, tokenLists, product, plainMsg } from "../lib/prog.mjs";
const REPO = process.env.OPTIQUE_REPO ?? "/repo";
export const meta = {
  rule: "For every configuration of logLevel(), verbosity(), debug(), logOutput(), textFormatter() and loggingOptions() (names, base and default levels, output on or off, no, fixed or selectable formatter), embedded bare, in an object, in merge() and below a command next to an ordinary flag and argument, every command line up to the bound over a token alphabet of single, repeated, bundled and joined spellings is parsed and its level and output compared with an independent reference; every console, file and configured sink is then fed every record and everything written to stdout, stderr and the files is compared with the documented destination.",
  assumptions: ["formatters themselves are LogTape's; their text is taken from calling them", "sinks write through console.log and console.error (documented stream selection) or @logtape/file"],
};
const LEVELS = ["trace", "debug", "info", "warning", "error", "fatal"]; // least to most severe
const more = (level, n) => LEVELS[Math.max(0, LEVELS.indexOf(level) - n)];
// ---- reference command line machine -------------------------------------------------
// spec: {flags:{name:[names], limit}, opts:{key:names}, args:n}; returns counts/values or null
export function scan(spec, toks) {
  const out = { flags: {}, opts: {}, args: [] };
  for (const k of Object.keys(spec.flags)) out.flags[k] = 0;
  const inc = (k) => ++out.flags[k] <= spec.flags[k].limit;
  const arg = (t) => out.args.push(t) <= spec.args;
  for (let i = 0, end = false; i < toks.length; i++) {
    const t = toks[i];
    if (end) { if (!arg(t)) return null; continue; }
    if (t === "--") { end = true; continue; }
    const f = Object.keys(spec.flags).find((k) => spec.flags[k].names.includes(t));
    if (f) { if (!inc(f)) return null; continue; }
    const o = Object.keys(spec.opts).find((k) => spec.opts[k].includes(t));
    if (o) { if (o in out.opts || i + 1 >= toks.length) return null; out.opts[o] = toks[++i]; continue; }
    const j = Object.keys(spec.opts).find((k) => spec.opts[k].some((n) => n.startsWith("--") && t.startsWith(n + "=")));
    if (j) { if (j in out.opts) return null; out.opts[j] = t.slice(t.indexOf("=") + 1); continue; }
    const b = /^-([A-Za-z]{2,})$/.exec(t);
    if (b && [...b[1]].every((c) => Object.values(spec.flags).some((x) => x.names.includes("-" + c)))) {
      for (const c of b[1]) if (!inc(Object.keys(spec.flags).find((k) => spec.flags[k].names.includes("-" + c)))) return null;
      continue;
    }
    if (t.startsWith("-") && t !== "-") return null;
    if (!arg(t)) return null;
  }
  return out;
}
// one configuration of a level source / output / formatter
export function spec(c) {
  const s = { flags: {}, opts: {}, args: 0 };
  if (c.level === "verbosity") s.flags.level = { names: [c.short ?? "-v", c.long ?? "--verbose"], limit: Infinity };
  if (c.level === "debug") s.flags.level = { names: [c.short ?? "-d", c.long ?? "--debug"], limit: 1 };
  if (c.level === "option") s.opts.level = [c.short ?? "-l", c.long ?? "--log-level"];
  if (c.out) s.opts.out = [...(c.outShort ? [c.outShort] : []), c.outLong ?? "--log-output"];
  if (typeof c.fmt === "string" && c.fmt.startsWith("--")) s.opts.fmt = [c.fmt];
  return s;
}
const FMT = { jsonl: "jsonLinesFormatter", logfmt: "logfmtFormatter", color: "ansiColorFormatter", plain: "defaultTextFormatter" };
export function meaning(c, r) { // null: refused
  const v = {};
  if (c.level === "verbosity") v.level = more(c.base ?? "warning", r.flags.level);
  if (c.level === "debug") v.level = r.flags.level ? c.on ?? "debug" : c.off ?? "info";
  if (c.level === "option") {
    if ("level" in r.opts) { v.level = r.opts.level.toLowerCase(); if (!LEVELS.includes(v.level)) return null; }
    else v.level = c.base ?? "info";
  }
  let fmt;
  if (r.opts.fmt !== undefined) { if (!(r.opts.fmt in FMT)) return null; fmt = FMT[r.opts.fmt]; }
  const selectable = typeof c.fmt === "string" && c.fmt.startsWith("--");
  if (c.fmt === "fixed") fmt = "fixed";
  let out;
  if (r.opts.out !== undefined) { if (r.opts.out.trim() === "") return null; out = r.opts.out === "-" ? { type: "console" } : { type: "file", path: r.opts.out }; }
  if (out === undefined && c.preset) out = { type: "console" };
  if (out === undefined && selectable && fmt) out = { type: "console" };
  if (out && fmt) out = { ...out, formatter: fmt };
  if (c.preset || c.out || c.fmt) v.out = out;
  return v;
}
export const CONFIGS = [
  { level: "verbosity" }, ...LEVELS.map((base) => ({ level: "verbosity", base })), { level: "verbosity", short: "-q", long: "--loud", base: "error" },
  { level: "debug" }, { level: "debug", on: "trace", off: "warning" }, { level: "debug", short: "-D", long: "--dbg", on: "fatal", off: "trace" },
  { out: true }, { out: true, outShort: "-o" }, { out: true, outLong: "--to", outShort: "-t", fmt: "fixed" }, { out: true, fmt: "--log-format" }, { out: true, outShort: "-o", fmt: "--fmt" },
  ...product(
    [{ level: "option" }, { level: "option", base: "error", short: "-L", long: "--lv" }, { level: "verbosity" }, { level: "verbosity", base: "info", short: "-q", long: "--loud" }, { level: "debug" }, { level: "debug", on: "trace", off: "error", short: "-D", long: "--dbg" }],
    [{ out: true }, { out: true, outLong: "--to" }, { out: false }], [{}, { fmt: "fixed" }, { fmt: "--log-format" }],
  ).map((p) => ({ preset: true, ...Object.assign({}, ...p) })),
];
export function build(A, M, L, c, fixed) {
  const fmt = c.fmt === undefined ? undefined : c.fmt === "fixed" ? fixed : c.fmt;
  const lv = { ...(c.short ? { short: c.short, long: c.long } : {}) };
  if (c.level === "verbosity" && c.base) lv.baseLevel = c.base;
  if (c.level === "option" && c.base) lv.default = c.base;
  if (c.level === "debug" && c.on) Object.assign(lv, { debugLevel: c.on, normalLevel: c.off });
  if (c.preset) return [M.loggingOptions({ level: c.level, ...lv, ...(c.out === false ? { output: { enabled: false } } : c.outLong ? { output: { long: c.outLong } } : {}), ...(fmt ? { formatter: fmt } : {}) }), (v) => ({ level: v.logLevel, out: v.logOutput })];
  if (c.level) return [c.level === "debug" ? M.debug(lv) : M.verbosity(lv), (v) => ({ level: v })];
  return [M.logOutput({ ...(c.outLong ? { long: c.outLong } : {}), ...(c.outShort ? { short: c.outShort } : {}), ...(fmt ? { formatter: fmt } : {}) }), (v) => ({ out: v })];
}
export const EMBED = {
  bare: (A, p) => p,
  object: (A, p) => A.object({ log: p, x: A.optional(A.flag("-x", "--ex")), y: A.optional(A.option("-y", "--yy", A.vp.string())) }),
  merge: (A, p) => A.merge(A.object({ x: A.optional(A.flag("-x", "--ex")), y: A.optional(A.option("-y", "--yy", A.vp.string())) }), A.object({ log: p })),
  presetmerge: (A, p) => A.merge(A.object({ x: A.optional(A.flag("-x", "--ex")), y: A.optional(A.option("-y", "--yy", A.vp.string())) }), p),
  command: (A, p) => A.command("go", A.object({ log: p, x: A.optional(A.flag("-x", "--ex")) })),
};
function tokens(c, how) {
  const s = spec(c), t = [];
  if (c.level === "verbosity" || c.level === "debug") { const [a, b] = s.flags.level.names, k = a[1]; t.push(a, `-${k}${k}`, `-${k}${k}${k}`, b, `${b}=1`, `-${k}x`, `-x${k}`); }
  if (c.level === "option") { const [a, b] = s.opts.level; t.push(a, b, "debug", "WARNING", `${b}=Trace`, `${b}=warn`, `${b}=`); }
  if (c.out) { const n = s.opts.out; t.push(...n, n.at(-1) + "=-", n.at(-1) + "=a.log", n.at(-1) + "= ", "-", "b.log"); }
  else if (c.preset) t.push("--log-output=-");
  if (s.opts.fmt) t.push(s.opts.fmt[0], s.opts.fmt[0] + "=color", s.opts.fmt[0] + "=JSONL", "plain", "logfmt", "jsonl");
  if (how !== "bare") t.push("-x"); if (how !== "bare" && how !== "command") t.push("-y");
  t.push("--");
  return [...new Set(t)];
}
const norm = (A, v) => v === undefined ? undefined : v;
let k = 0;
export function one(ctx, A, M, L, d) {
  ctx.begin(d); ctx.exec(1);
  const { c, how, toks } = d, fixed = (r) => "FIXED";
  const [p, get] = build(A, M, L, c, fixed), parser = EMBED[how](A, p);
  const s = spec(c); if (how !== "bare") { s.flags.x = { names: ["-x", "--ex"], limit: 1 }; if (how !== "command") s.opts.y = ["-y", "--yy"]; }
  const r = scan(s, toks), want = r && meaning(c, r);
  const got = A.parse(parser, how === "command" ? ["go", ...toks] : toks);
  ctx.transition(toks.length + 1); ctx.outcome(want ? "accepted" : "refused"); ctx.distinct(show([how, c, want]));
  let bad;
  if (!!want !== got.success) bad = `${got.success ? "accepted" : "refused"} (${got.success ? show(got.value) : plainMsg(A, got.error)}), should be ${want ? "accepted" : "refused"}`;
  else if (want) {
    const v = get(how === "bare" || how === "presetmerge" ? got.value : got.value.log);
    const nameOf = (f) => f === undefined ? undefined : f === fixed ? "fixed" : Object.values(FMT).find((n) => L[n] === f) ?? "another function";
    const seen = { ...("level" in want ? { level: v.level } : {}), ...("out" in want ? { out: v.out && { ...v.out, ...("formatter" in v.out ? { formatter: nameOf(v.out.formatter) } : {}) } } : {}) };
    if (!("level" in want) && "level" in v || show(seen) !== show(want)) bad = `gave ${show(seen)}, should be ${show(want)}`;
    else if (how !== "bare") { const x = got.value.x ?? undefined; if ((x === true) !== (r.flags.x > 0) || got.value.y !== r.opts.y) bad = `neighbours became ${show(got.value)}`; }
  }
  if (bad) ctx.violation(`cli|${c.preset ? "preset" : "alone"}|${c.level ?? "output"}|${how}|${want ? "acc" : "ref"}`, `${show(c)} ${how} <${toks.join(" ")}>: ${bad}`, d, toks.length);
  else if (k++ % 40000 === 1) ctx.sample({ config: show(c), how, args: toks.join(" "), result: show(want) });
}
// ---- value parsers -------------------------------------------------------------------
function words(ctx, A, M, L) {
  const lv = M.logLevel(), err = M.logLevel({ metavar: "LV", errors: { invalidLevel: (i) => A.message`BAD ${i}` } }), tf = M.textFormatter();
  const cases = (w) => { let out = [""]; for (const c of w) out = out.flatMap((p) => [p + c, p + c.toUpperCase()]); return out; };
  const all = new Set(["", " ", "warn", "err", "inf", "infoo", " info", "info ", "0", "none", "verbose", "notice", "constructor", "toString", "__proto__", ...LEVELS.flatMap(cases), ...LEVELS.flatMap((l) => [...l].map((_, i) => l.slice(0, i) + l.slice(i + 1)))]);
  for (const w of all) {
    if (!ctx.next()) continue; const d = { kind: "word", w }; ctx.begin(d); ctx.exec(2); ctx.transition(1); ctx.distinct("w" + w);
    const want = LEVELS.includes(w.toLowerCase()) ? w.toLowerCase() : undefined; ctx.outcome(want ? "level" : "no level");
    for (const p of [lv, err]) {
      const r = p.parse(w);
      if (r.success !== (want !== undefined) || r.success && r.value !== want) ctx.violation("level word", `logLevel().parse(${show(w)}) gave ${show(r.success ? r.value : "a refusal")}, should be ${show(want ?? "a refusal")}`, d, w.length);
      else if (r.success && (p.parse(p.format(r.value)).value !== want)) ctx.violation("level format", `logLevel() does not read back ${show(p.format(r.value))}`, d, w.length);
    }
    if (!want) { const m = plainMsg(A, err.parse(w).error); if (!m.includes("BAD")) ctx.violation("level error", `invalidLevel is not used for ${show(w)}: ${m}`, d, w.length); }
  }
  for (const w of ["jsonl", "logfmt", "color", "plain", "JSONL", "Plain", "json", "text", "", "pretty", "constructor", "__proto__", "toString", "jsonl "]) {
    if (!ctx.next()) continue; const d = { kind: "word", w, f: 1 }; ctx.begin(d); ctx.exec(1); ctx.transition(1);
    const r = tf.parse(w), want = Object.hasOwn(FMT, w) ? L[FMT[w]] : undefined; ctx.outcome(want ? "formatter" : "no formatter");
    if (r.success !== !!want || r.success && r.value !== want) ctx.violation("formatter word", `textFormatter().parse(${show(w)}) is wrong`, d, w.length);
    else if (want && tf.format(r.value) !== w) ctx.violation("formatter format", `textFormatter() shows ${show(w)} as ${show(tf.format(r.value))}`, d, w.length);
  }
  const prefixes = new Set([""]); for (const l of [...LEVELS, "JSONL", "logfmt", "color", "plain", "xx"]) for (let i = 1; i <= l.length; i++) prefixes.add(l.slice(0, i));
  for (const pre of prefixes) {
    if (!ctx.next()) continue; const d = { kind: "suggest", pre }; ctx.begin(d); ctx.exec(2); ctx.transition(2); ctx.outcome("suggestions");
    for (const [n, p, list] of [["logLevel", lv, LEVELS], ["textFormatter", tf, Object.keys(FMT)]]) {
      const got = [...p.suggest(pre)].map((s) => s.kind + s.text).sort(), want = list.filter((l) => l.startsWith(pre)).map((t) => "literal" + t).sort();
      if (pre === pre.toLowerCase() && show(got) !== show(want)) ctx.violation("suggest " + n, `${n}() suggests ${show(got)} for ${show(pre)}, should be ${show(want)}`, d, pre.length);
    }
  }
  for (const bad of ["warn", "INFO", "", "none", null, 3]) for (const [n, f] of [["verbosity", () => M.verbosity({ baseLevel: bad })], ["debugLevel", () => M.debug({ debugLevel: bad })], ["normalLevel", () => M.debug({ normalLevel: bad })], ["preset default", () => M.loggingOptions({ level: "option", default: bad })], ["preset base", () => M.loggingOptions({ level: "verbosity", baseLevel: bad })], ["preset debug", () => M.loggingOptions({ level: "debug", debugLevel: bad })], ["preset normal", () => M.loggingOptions({ level: "debug", normalLevel: bad })], ["kind", () => M.loggingOptions({ level: bad })]]) {
    if (!ctx.next() || bad === null) continue; const d = { kind: "config", n, bad }; ctx.begin(d); ctx.exec(1); ctx.transition(1); ctx.outcome("invalid setting");
    let e; try { f(); } catch (x) { e = x; } if (!(e instanceof TypeError)) ctx.violation("config " + n, `${n} ${show(bad)} is not rejected with a TypeError (${e})`, d, 1);
  }
}
// ---- sinks ---------------------------------------------------------------------------
function capture(f) { // everything written while f runs, in order
  const out = [], saved = {};
  for (const m of ["log", "error", "info", "warn", "debug", "trace"]) { saved[m] = console[m]; console[m] = (...a) => out.push([m, a]); }
  const so = process.stdout.write, se = process.stderr.write;
  process.stdout.write = (c) => (out.push(["log", ["raw:" + c]]), true); process.stderr.write = (c) => (out.push(["error", ["raw:" + c]]), true);
  try { const v = f(); return { out, v }; } catch (e) { return { out, e }; } finally { Object.assign(console, saved); process.stdout.write = so; process.stderr.write = se; }
}
const TS = Date.UTC(2024, 1, 29, 12, 34, 56, 789);
const RECORDS = LEVELS.flatMap((level) => [["hello"], ["a ", 1, " b ", { x: 1 }, ""], ["line\n"], ["two\nlines\r\n"], [""]].map((message) => ({ category: ["app", "db"], level, message, rawMessage: message.join(""), properties: { user: "u" }, timestamp: TS })));
const text = (r) => `${new Date(TS).toISOString()} [${r.level.toUpperCase().padEnd(7)}] app.db: ${r.message.map((m) => typeof m === "string" ? m : String(m)).join("")}`;
const STREAMS = { none: [{}, () => "stderr"], null: [{ stream: null }, () => "stderr"], stdout: [{ stream: "stdout" }, () => "stdout"], stderr: [{ stream: "stderr" }, () => "stderr"] };
const resolver = (set) => (level) => set.includes(level) ? "stderr" : "stdout";
export const strip = (s) => s.replace(/\r?\n$/, "");
function streams() {
  const out = { ...STREAMS };
  for (let m = 0; m < 64; m++) { const set = LEVELS.filter((_, i) => m & (1 << i)); out["resolver:" + set.join(",")] = [{ streamResolver: resolver(set), ...(m % 3 === 1 ? { stream: "stdout" } : m % 3 === 2 ? { stream: "nonsense" } : {}) }, resolver(set)]; }
  return out;
}
async function sink(ctx, A, M, L, d) {
  ctx.begin(d); ctx.exec(RECORDS.length);
  const [opts, where] = streams()[d.stream];
  const F = { none: undefined, plain: L.defaultTextFormatter, jsonl: L.jsonLinesFormatter, args: (r) => ["%s %o", r.level, r.properties], object: (r) => ({ r: r.level }), nothing: () => undefined, crlf: (r) => r.level + "\r\n\r\n" };
  const own = F[d.fmt], viaOut = F[d.outFmt], f = own ?? viaOut, bad = [];
  const s = d.how === "console" ? M.createConsoleSink({ ...opts, ...(own ? { formatter: own } : {}) })
    : await M.createSink({ type: "console", ...(viaOut ? { formatter: viaOut } : {}) }, { ...opts, ...(own ? { formatter: own } : {}) });
  for (const r of RECORDS) {
    const before = show(r), { out, e } = capture(() => s(r));
    const x = f ? f(r) : text(r), args = typeof x === "string" ? [strip(x)] : Array.isArray(x) ? x : x == null ? [] : [x];
    const want = [[where(r.level) === "stdout" ? "log" : "error", args]];
    ctx.transition(1); ctx.outcome("record to " + where(r.level));
    if (e) bad.push(`failed: ${e}`); else if (show(out) !== show(want)) bad.push(`${r.level} ${show(r.message)} was written as ${show(out)}, should be ${show(want)}`);
    if (show(r) !== before) bad.push("the record was changed");
  }
  ctx.distinct(show(d));
  if (bad.length) ctx.violation(`sink|${d.how}|${d.fmt}|${d.outFmt}|${d.stream.split(":")[0]}`, `${d.how} sink, ${show(d)}: ${bad[0]}`, d, 1);
}
async function badstream(ctx, A, M, d) {
  ctx.begin(d); ctx.exec(1); ctx.transition(1); ctx.outcome("invalid stream");
  const v = d.v === "undefined" ? undefined : d.v; let e;
  if (d.resolver) { const s = M.createConsoleSink({ streamResolver: () => v }); const c = capture(() => s(RECORDS[0])); e = c.e; if (c.out.length) e = undefined; }
  else try { M.createConsoleSink({ stream: v }); } catch (x) { e = x; }
  if (!(e instanceof TypeError)) ctx.violation("stream " + d.resolver, `stream ${show(v)}${d.resolver ? " from the resolver" : ""} is not rejected with a TypeError`, d, 1);
}
// ---- end to end: command line -> configuration -> log calls -> streams and files ---------
async function e2e(ctx, A, M, L, d) {
  ctx.begin(d); ctx.exec(1);
  const dir = join(ctx.scratch, "e2e"); rmSync(dir, { recursive: true, force: true }); mkdirSync(dir, { recursive: true });
  const [p, get] = build(A, M, L, d.c, (r) => "FIXED " + r.level + "\n");
  const toks = d.toks.map((t) => t.replace("@", dir + "/"));
  const r = A.parse(p, toks), want = meaning(d.c, scan(spec(d.c), toks));
  if (!r.success || !want) { if (r.success !== !!want) ctx.violation("e2e parse", `<${toks.join(" ")}> was ${r.success ? "accepted" : "refused"}`, d, 1); return; }
  const seen = [], extra = d.extra ? { sinks: { mine: (rec) => seen.push(rec.level) }, loggers: [{ category: ["app", "db"], lowestLevel: "error", sinks: ["mine"] }], reset: true } : {};
  const set = ["error", "fatal"], opts = d.stream === "resolver" ? { streamResolver: resolver(set) } : d.stream ? { stream: d.stream } : {};
  const cfg = await M.createLoggingConfig(r.value, opts, extra);
  await L.configure({ ...cfg, reset: true, loggers: [...cfg.loggers, { category: ["logtape", "meta"], sinks: [], parentSinks: "override" }] });
  const { out, e } = capture(() => { for (const cat of [["app"], ["app", "db"], ["other"]]) for (const l of LEVELS) L.getLogger(cat)[l === "warning" ? "warn" : l](`${cat.join("/")} ${l}`); });
  await L.reset();
  const where = (l) => want.out.type === "file" ? "file" : d.stream === "resolver" ? resolver(set)(l) : d.stream ?? "stderr";
  const pass = []; // with a logger of its own for app/db the lowest level there is that logger's
  for (const cat of ["app", "app/db", "other"]) for (const l of LEVELS) if (LEVELS.indexOf(l) >= LEVELS.indexOf(want.level) && !(d.extra && cat === "app/db" && LEVELS.indexOf(l) < LEVELS.indexOf("error"))) pass.push([cat, l]);
  ctx.transition(18); ctx.outcome("end to end " + want.out.type); ctx.distinct("e2e" + show([want, d.stream, d.extra]));
  const bad = []; if (e) bad.push("logging failed: " + e);
  const sees = (line, [cat, l]) => want.out.formatter === "fixed" ? line === "FIXED " + l : line.includes(`${cat} ${l}`);
  const check = (lines, list, what) => { if (lines.length !== list.length || !lines.every((x, i) => sees(x, list[i]))) bad.push(`${what} got ${show(lines).slice(0, 300)}, should be the records ${list.map((x) => x.join(" ")).join(", ")}`); };
  const lines = (m) => out.filter(([x]) => x === m).map(([, a]) => a.join(" "));
  const to = (n) => pass.filter(([, l]) => where(l) === n);
  check(lines("log"), to("stdout"), "stdout"); check(lines("error"), to("stderr"), "stderr"); if (out.some(([m]) => m !== "log" && m !== "error")) bad.push("another console method was used");
  const files = readdirSync(dir);
  if (want.out.type === "file") { const f = want.out.path.slice(dir.length + 1); if (files.some((x) => x !== f)) bad.push("another file was written: " + files); check(existsSync(want.out.path) ? readFileSync(want.out.path, "utf8").split(/\n/).filter((x) => x) : [], to("file"), f); }
  else if (files.length) bad.push("a file was written: " + files);
  if (d.extra && show(seen) !== show(["error", "fatal"])) bad.push(`the additional sink got ${show(seen)}`);
  if (!bad.length && want.out.formatter && want.out.formatter !== "fixed") {
    const all = want.out.type === "file" ? readFileSync(want.out.path, "utf8").split("\n").filter((x) => x) : out.map(([, a]) => a[0]);
    const is = { jsonLinesFormatter: (x) => { try { return typeof JSON.parse(x) === "object"; } catch { return false; } }, logfmtFormatter: (x) => /^\w+=/.test(x), ansiColorFormatter: (x) => x.includes("\x1b["), defaultTextFormatter: (x) => /^\d{4}-\d\d-\d\d /.test(x) }[want.out.formatter];
    if (!all.every(is)) bad.push(`not formatted by ${want.out.formatter}: ${all.find((x) => !is(x))}`);
  }
  if (bad.length) ctx.violation(`e2e|${d.c.level}|${want.out.type}|${d.stream}|${d.extra ? 1 : 0}`, `${show(d.c)} <${d.toks.join(" ")}> ${d.stream ?? ""}${d.extra ? " with an additional logger" : ""}: ${bad.join("; ")}`, d, d.toks.length);
}
async function twofiles(ctx, M, L, d) { // two file sinks and the console at once: no crosstalk, under every interleaving of three writers
  ctx.begin(d); ctx.exec(1);
  const dir = join(ctx.scratch, "two"); rmSync(dir, { recursive: true, force: true }); mkdirSync(dir, { recursive: true });
  const s = [await M.createSink({ type: "file", path: join(dir, "a"), formatter: (r) => r.rawMessage + "\n" }), await M.createSink({ type: "file", path: join(dir, "b"), formatter: (r) => r.rawMessage + "\n" }), await M.createSink({ type: "console" }, { stream: "stdout", formatter: (r) => r.rawMessage })];
  const want = [[], [], []];
  const { out } = capture(() => { for (const [i, w] of d.order.entries()) { const t = `m${i}`; want[w].push(t); s[w]({ ...RECORDS[0], rawMessage: t, message: [t] }); } });
  for (const x of s) x[Symbol.dispose]?.();
  const got = ["a", "b"].map((f) => existsSync(join(dir, f)) ? readFileSync(join(dir, f), "utf8").split("\n").filter((x) => x) : []); got.push(out.map(([, a]) => a.join(" ")));
  ctx.transition(d.order.length); ctx.outcome("three sinks"); ctx.distinct("two" + d.order);
  if (show(got) !== show(want) || out.some(([m]) => m !== "log")) ctx.violation("crosstalk", `writers ${d.order}: ${show(got)}, should be ${show(want)}`, d, d.order.length);
}
async function mods(ctx) {
  const A = await api(ctx), M = await ctx.load("logtape/src/index.js"), L = await import(pathToFileURL(join(REPO, "packages/logtape/node_modules/@logtape/logtape/dist/mod.js")).href);
  return [A, M, L];
}
export async function run(ctx) {
  const [A, M, L] = await mods(ctx); mkdirSync(ctx.scratch, { recursive: true });
  words(ctx, A, M, L);
  for (const how of ["console", "createSink"]) for (const stream of Object.keys(streams())) for (const fmt of ["none", "plain", "jsonl", "args", "object", "nothing", "crlf"]) for (const outFmt of how === "console" ? ["none"] : ["none", "plain", "crlf"]) {
    if (stream.startsWith("resolver") && fmt !== "none" && fmt !== "plain" && ctx.quick) continue;
    if (ctx.next()) await sink(ctx, A, M, L, { kind: "sink", how, stream, fmt, outFmt });
  }
  for (const v of ["console", "", "STDOUT", "stdin", 0, 1, true, {}]) for (const r of [0, 1]) if (ctx.next() && !(r === 0 && v === "")) await badstream(ctx, A, M, { kind: "stream", v, resolver: r });
  for (const v of ["undefined", null]) if (ctx.next()) await badstream(ctx, A, M, { kind: "stream", v, resolver: 1 });
  const lists = { verbosity: ["", "-v", "-vv", "-v --verbose -v", "-vvvvv"], debug: ["", "-d", "--debug"], option: ["", "-l trace", "--log-level=WARNING", "-l fatal", "-l error"] };
  for (const level of Object.keys(lists)) for (const base of LEVELS) for (const l of lists[level]) for (const fmt of [undefined, "fixed", "--log-format"]) for (const o of ["", "--log-output=-", "--log-output=@x.log", "--log-output @y.log"]) for (const f of fmt === "--log-format" ? ["", ...Object.keys(FMT).map((x) => "--log-format=" + x)] : [""]) for (const stream of [undefined, "stdout", "stderr", "resolver"]) for (const extra of [0, 1]) {
    if (ctx.quick && (stream === "stderr" || extra && (fmt || stream))) continue;
    const c = { preset: true, out: true, level, ...(level === "debug" ? { on: base, off: more(base, -1) ?? base } : { base }), ...(fmt ? { fmt } : {}) };
    if (ctx.next()) await e2e(ctx, A, M, L, { kind: "e2e", c, toks: `${l} ${o} ${f}`.split(" ").filter((x) => x), stream, extra });
  }
  const orders = (n) => n === 0 ? [[]] : orders(n - 1).flatMap((o) => [0, 1, 2].map((w) => [...o, w]));
  for (let n = 1; n <= (ctx.quick ? 5 : 7); n++) for (const order of orders(n)) if (ctx.next()) await twofiles(ctx, M, L, { kind: "two", order });
  const full = ctx.quick ? 3 : 4; ctx.bound("command line length", full);
  for (const how of Object.keys(EMBED)) for (const c of CONFIGS) {
    if (how === "presetmerge" && !c.preset) continue;
    const T = tokens(c, how), n = ctx.quick && (T.length > 24 || how !== "object" && how !== "bare" && T.length > 12) ? 2 : ctx.quick || T.length <= 14 ? full : 3;
    for (const toks of tokenLists(T, n)) if (ctx.next()) one(ctx, A, M, L, { kind: "cli", c, how, toks });
    ctx.checkTime?.();
  }
}
export async function replay(ctx, d) {
  const [A, M, L] = await mods(ctx); mkdirSync(ctx.scratch, { recursive: true });
  if (d.kind === "cli") one(ctx, A, M, L, d);
  else if (d.kind === "sink") await sink(ctx, A, M, L, d);
  else if (d.kind === "stream") await badstream(ctx, A, M, d);
  else if (d.kind === "e2e") await e2e(ctx, A, M, L, d);
  else if (d.kind === "two") await twofiles(ctx, M, L, d);
  else words({ ...ctx, next: () => true }, A, M, L);
}

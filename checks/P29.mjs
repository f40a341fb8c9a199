// P29: dotenv files, assembled from the pieces of the documented grammar whose meaning is known by construction.
import { api, show, product } from "../lib/prog.mjs";
import { writeFileSync, mkdirSync, rmSync, existsSync, readFileSync } from "node:fs";
import { join } from "node:path";
export const meta = {
  rule: "Files are all sequences of statements up to a bound, each statement all sequences of value pieces (text, blanks, hashes, quotes, escapes, variables, substitutions) in every quoting style with every decoration; the meaning is composed from the pieces, never read back from the text, and compared with the context's lookups, the substitution calls and their order, the error for malformed files, and the untouched process environment.",
  assumptions: ["documentation leaves open and nothing is judged about: blanks around '=', CR-only line ends, escapes other than \\n \\r \\t \\\" \\\\ \\$, a backslash before $ in unquoted values, ${} with anything but a name, nested delimiters inside substitutions, a hash immediately after '='"],
};
// environments: E is the real environment, A.. are assigned in files
const SRC = { R: "real", E: "", V: "$R ${R} $(no) `no` 'q' \"d\" # \\n" };
const SUB = { pick: "picked", money: "$R`x`$(y)" };
// ---- value pieces: [text, meaning(env) , tags] --------------------------------
const lit = (t, m = t) => ({ t, m: () => m });
const vr = (n, br) => ({ t: br ? `\${${n}}` : `$${n}`, m: (look) => look(n) ?? "", name: !br });
const sb = (c, tick) => ({ t: tick ? "`" + c + "`" : `$(${c})`, m: (look, sub) => sub(c) ?? "" });
const COMMON = () => [vr("R"), vr("R", 1), vr("V"), vr("A"), vr("A", 1), vr("NONE"), vr("E", 1), sb("pick"), sb("pick", 1), sb("money"), sb("other", 1), sb("a b $R 'x'"), lit("x"), lit("_9"), lit("."), lit("=")];
export const PIECES = {
  u: [...COMMON(), lit("a b"), lit("#"), lit("x #y", null), lit("'"), lit("\\"), lit("\\n"), lit("\\t"), lit("é😀"), lit("$ "), lit("$5"), lit(" "), lit("\t"), lit("export ")],
  d: [...COMMON(), lit("a b"), lit(" "), lit("#"), lit(" # no"), lit("'"), lit("\\n", "\n"), lit("\\t", "\t"), lit("\\r", "\r"), lit('\\"', '"'), lit("\\\\", "\\"), lit("\\$", "$"), lit("\n"), lit("\nB=7\n"), lit("é😀"), lit("$ "), lit("$5")],
  s: [lit("$R"), lit("${A}"), lit("$(pick)"), lit("`pick`"), lit("\\n"), lit("\\"), lit('"'), lit(" "), lit("#"), lit(" # no"), lit("\n"), lit("\nB=7\n"), lit("x"), lit("é😀")],
};
// a value: {q, ps}; returns {text, mean(look, sub)} or undefined when its text would be ambiguous
export function value(q, ps) {
  for (let i = 0; i + 1 < ps.length; i++) {
    if (ps[i].name && /^[A-Za-z0-9_]/.test(ps[i + 1].t)) return; // $A followed by a name character is another name
    if (/\$$/.test(ps[i].t) || (ps[i].t === "\\" && q === "u" && /^[$"'`\\]/.test(ps[i + 1].t))) return;
  }
  if (q === "u" && ps.some((p, i) => p.t === "\\" && i + 1 < ps.length && /^[$`]/.test(ps[i + 1].t))) return;
  const text = ps.map((p) => p.t).join("");
  if (q === "u") {
    if (/^[\s#'"]/.test(text) ) return;
    const cut = ps.findIndex((p, i) => p.m && p.t === "#" && i && /\s$/.test(ps[i - 1].t) || p.t === "x #y");
    const eff = cut < 0 ? ps : ps[cut].t === "#" ? ps.slice(0, cut) : [...ps.slice(0, cut), lit("x")];
    // trailing blanks of the raw text are trimmed: drop them piece by piece
    const e = eff.slice(); while (e.length && /^\s+$/.test(e.at(-1).t)) e.pop();
    if (e.length && /\s$/.test(e.at(-1).t)) { const l = e.pop(); e.push(lit(l.t.trimEnd())); }
    return { text, commented: cut >= 0, mean: (look, sub) => e.map((p) => p.m(look, sub)).join("") };
  }
  return { text: (q === "d" ? '"' : "'") + text + (q === "d" ? '"' : "'"), mean: (look, sub) => ps.map((p) => p.m(look, sub)).join("") };
}
// ---- whole files ------------------------------------------------------------
// stmt: {k, v (value), pre, post} | {blank: text}
export function render(stmts, eol, last) { return stmts.map((s) => s.blank !== undefined ? s.blank : (s.pre ?? "") + s.k + "=" + s.v.text + (s.post ?? "")).join(eol) + (last ? eol : ""); }
export function meaning(files, source, substitute) {
  const all = new Map(), calls = [];
  const sub = (c) => { calls.push(c); return substitute?.(c); };
  for (const f of files) for (const s of f ?? []) if (s.k) { const look = (n) => source(n) ?? all.get(n); all.set(s.k, s.v.mean(look, sub)); }
  return { all, calls };
}
export function real(M, paths, source, substitute, form) {
  const calls = [];
  const hook = substitute && ((c) => { calls.push(c); return substitute(c); });
  const before = JSON.stringify(process.env);
  try {
    const envFile = form === "opts" || hook ? { paths, ...(hook ? { substitute: hook } : {}) } : paths;
    const c = M.createEnvContext({ source, envFile, prefix: "P_" });
    const r = { look: c.source, ctx: c, calls };
    if (JSON.stringify(process.env) !== before) r.err = "process.env was changed";
    return r;
  } catch (e) { return { err: `${e?.name}: ${e?.message}`, name: e?.name, calls }; }
}
let n = 0;
function check(ctx, M, files, opt = {}) {
  const { eol = "\n", last = true, hook = true, src = SRC, form, raw } = opt;
  ctx.exec(1);
  const source = (k) => src[k], substitute = hook ? (c) => SUB[c] : undefined;
  const texts = files.map((f) => f === undefined ? undefined : raw ?? render(f, eol, last));
  const paths = texts.map((t, i) => { const p = join(ctx.scratch, `f${i}.env`); if (t === undefined) rmSync(p, { force: true }); else writeFileSync(p, t); return p; });
  const m = meaning(files, source, substitute), r = real(M, paths.length === 1 && form !== "arr" ? paths[0] : paths, source, substitute, form);
  const d = { texts, src, hook, form, want: [...m.all], calls: hook ? m.calls : undefined };
  ctx.begin({ texts });
  judge(ctx, M, d, r);
  return r;
}
function judge(ctx, M, d, r) {
  const bad = [];
  if (r.err) bad.push("refused: " + r.err);
  else {
    for (const [k, v] of d.want) { const w = d.src[k] !== undefined ? d.src[k] : v, g = r.look(k); const eq = g === w || (typeof g === "string" && g.replace(/\r\n/g, "\n") === w.replace(/\r\n/g, "\n")); if (!eq) bad.push(`${k} is ${show(g)}, should be ${show(w)}`); }
    for (const k of ["B", "C", "NONE", "x", "export", "no"]) if (d.want.every(([x]) => x !== k) && d.src[k] === undefined && r.look(k) !== undefined) bad.push(`${k} was never assigned but is ${show(r.look(k))}`);
    for (const k of ["R", "E", "V"]) if (d.src[k] !== undefined && r.look(k) !== d.src[k]) bad.push(`the real ${k} is hidden`);
    if (d.calls && JSON.stringify(d.calls) !== JSON.stringify(r.calls)) bad.push(`substitution asked for ${show(r.calls)}, should be ${show(d.calls)}`);
  }
  ctx.outcome(bad.length ? "differs" : "as written");
  ctx.distinct(JSON.stringify(d.want));
  if (bad.length) ctx.violation(JSON.stringify(d.texts), `${show(d.texts)}: ${bad.join("; ")}`, d, d.texts.join("").length);
  else if (n++ % 20000 === 1) ctx.sample({ texts: d.texts, means: d.want });
}
const Q = ["u", "d", "s"];
export async function run(ctx) {
  mkdirSync(ctx.scratch, { recursive: true });
  const A = await api(ctx), M = await ctx.load("env/src/index.js"), deep = !ctx.quick;
  const X = value("u", [lit("1")]), st = (k, q, ...ps) => ({ k, v: value(q, ps) });
  const base = [{ blank: "# A=comment" }, { k: "A", v: value("d", [lit("old")]) }];
  const decs = [{}, { pre: "export " }, { pre: "export  " }, { pre: "export\t" }, { pre: "  " }, { pre: "\t" }, { post: " # c=1" }, { post: "   " }, { post: "\t# 'x\"" }, { pre: "export ", post: " #" }];
  // 1. one value: all piece sequences, decorations rotating on longer ones
  const maxP = deep ? 4 : 3; ctx.bound("pieces per value", maxP);
  for (const q of Q) for (let len = 0; len <= (q === "s" ? maxP + 1 : maxP); len++) {
    let i = 0;
    for (const ps of product(...Array(len).fill(PIECES[q]))) {
      i++;
      if (!ctx.next()) continue;
      const v = value(q, ps); if (!v) continue;
      ctx.state(1);
      const full = len <= 1 || (len === 2 && deep);
      for (const [j, dec] of decs.entries()) {
        if (!full && j !== (i * 7 + len) % decs.length) continue;
        if (q === "u" && v.text === "" && dec.post?.trim()) continue;
        if (v.commented && dec.post) continue;
        for (const eol of full ? ["\n", "\r\n"] : [(i % 3 ? "\n" : "\r\n")]) for (const last of full ? [true, false] : [i % 2 === 0]) for (const hook of full || (deep && len < 4) ? [true, false] : [i % 5 !== 0]) {
          ctx.transition(len + 1);
          // the value is assigned to N between two plain assignments; the last one reads it back
          if (last) check(ctx, M, [[...base, { k: "N", v, ...dec }, { blank: "" }, { k: "Z", v: value("u", [vr("N", 1), lit("!")]) }]], { eol, last: true, hook });
          else check(ctx, M, [[...base, { k: "N", v, ...dec }]], { eol, last: false, hook });
        }
      }
    }
    if (ctx.checkTime()) return;
  }
  // 2. statement sequences over one or two files: order, overriding, expansion of earlier values, the real environment
  const stm = [st("A", "u", lit("1")), st("A", "u", vr("A", 1), lit("2")), st("B", "d", vr("A"), lit("-"), vr("C")), st("C", "s", lit("$A")), st("C", "u", vr("B")), st("R", "u", lit("file")), st("B", "u", vr("R")), st("export", "u", lit("e")), st("exportA", "u", lit("f")), st("A", "d", lit("\nB=7\n")), st("B", "u"), { blank: "" }, { blank: "  # B=0" }, { ...st("C", "u", lit("z")), pre: "export " }, st("_x9", "u", vr("_x9", 1), lit("k")), st("B", "u", vr("_x9"))];
  const maxS = deep ? 4 : 3; ctx.bound("statements", maxS);
  for (let len = 0; len <= maxS; len++) for (const ss of product(...Array(len).fill(stm))) {
    if (!ctx.next()) continue;
    ctx.state(1);
    for (let cut = -1; cut <= len; cut++) {
      const files = cut < 0 ? [ss] : [ss.slice(0, cut), ss.slice(cut)];
      ctx.transition(len);
      check(ctx, M, files, { eol: (len + cut) % 2 ? "\n" : "\r\n", last: cut !== 0, form: cut % 2 ? "opts" : "arr" });
      if (len <= 2) { check(ctx, M, [undefined, ...files], {}); check(ctx, M, [...files, undefined], { hook: false }); if (cut >= 0) check(ctx, M, [files[0], undefined, files[1]], { src: {} }); check(ctx, M, files, { src: { R: "real", A: "env", _x9: "" } }); }
    }
  }
  if (ctx.checkTime()) return;
  // 3. malformed files are refused with a SyntaxError that names the file and the line
  const frag = ['A="x', "A='x", "A", "=1", "1A=2", "A B=1", "-A=1", "A-B=1", 'A="$(x"', "A=${B", "A=`x", "A=$(x", "export", "export A", '"A"=1', "A='x'\\''", "é=1"];
  for (const f of frag) for (const before of [[], ["B=1"], ["B=1", ""], ["# c", 'C="x', 'y"']]) for (const eol of ["\n", "\r\n"]) {
    if (!ctx.next()) continue;
    ctx.state(1); ctx.transition(1); ctx.exec(1);
    const text = [...before, f].join(eol) + eol, p = join(ctx.scratch, "bad.env"); writeFileSync(p, text);
    bad(ctx, M, { text, p, line: before.length + 1 });
  }
  // 3b. a substitution or an environment lookup that fails is reported as it is, whatever the error looks like; the file is not skipped.
  // Unreadable files (a directory, a path through a file) are errors too; only a file that is not there is skipped.
  for (const code of [undefined, "ENOENT", "EACCES", "ENOTDIR"]) for (const who of ["substitute", "source"]) for (const at of [0, 1]) for (const text of ["A=1\nB=$(x)$R\n", 'B="$(x) $R"\nA=1', "B=`x`$R"]) for (const missing of [false, true]) {
    if (!ctx.next()) continue;
    ctx.state(1); ctx.transition(1);
    failing(ctx, M, { fail: true, code, who, at, text, missing });
  }
  if (ctx.next()) {
    const dir = join(ctx.scratch, "isdir.env"), through = join(ctx.scratch, "plain.env"); mkdirSync(dir, { recursive: true }); writeFileSync(through, "A=1\n");
    for (const p of [dir, join(through, "x.env")]) { ctx.exec(1); const r = real(M, p, () => undefined); ctx.outcome("unreadable"); if (!r.err) ctx.violation("unreadable|" + (p === dir), `${p === dir ? "a directory" : "a path through a file"} given as dotenv file was silently skipped`, { unreadable: true }, 1); }
  }
  // 4. forms of envFile, in a working directory of its own
  if (ctx.next()) {
    const dir = join(ctx.scratch, "cwd"); mkdirSync(dir, { recursive: true }); const old = process.cwd(); process.chdir(dir);
    try {
      writeFileSync(".env", "A=dot\n"); writeFileSync("other.env", "A=other\nB=o\n"); mkdirSync("dir.env", { recursive: true });
      const look = (envFile, k) => { try { return M.createEnvContext({ source: () => undefined, envFile }).source(k); } catch (e) { return e?.name; } };
      const want = [[true, "A", "dot"], [".env", "A", "dot"], ["other.env", "A", "other"], [[".env", "other.env"], "A", "other"], [["other.env", ".env"], "A", "dot"], [["other.env", ".env"], "B", "o"], [{}, "A", "dot"], [{ paths: true }, "A", "dot"], [{ paths: "other.env" }, "A", "other"], [{ paths: ["nope.env"] }, "A", undefined], [undefined, "A", undefined], [[], "A", undefined], ["nope/none.env", "A", undefined], [join(dir, "other.env"), "A", "other"], ["dir.env", "A", "Error"]];
      for (const [f, k, w] of want) { ctx.state(1); ctx.exec(1); const g = look(f, k); ctx.outcome("forms"); if (g !== w && !(w === undefined && g === undefined)) ctx.violation("form|" + JSON.stringify(f) + k, `envFile ${show(f)}: ${k} is ${show(g)}, should be ${show(w)}`, { form: f, k, w }, 1); }
      // the default source is the real environment, which beats files and is not written
      process.env.VP29_REAL = "yes"; writeFileSync("r.env", "VP29_REAL=no\nVP29_FILE=file\nVP29_X=$VP29_REAL\n");
      const c = M.createEnvContext({ envFile: "r.env" });
      const g = [c.source("VP29_REAL"), c.source("VP29_FILE"), c.source("VP29_X"), process.env.VP29_FILE]; ctx.exec(1);
      if (JSON.stringify(g) !== JSON.stringify(["yes", "file", "yes", undefined])) ctx.violation("default-source", `real environment and files give ${show(g)}`, {}, 1);
      // bound parsers read the same values, with the prefix, and no command is ever executed
      writeFileSync("c.env", "P_V=$(touch executed)`touch executed`7\nP_W=5\n");
      const cx = M.createEnvContext({ prefix: "P_", source: () => undefined, envFile: "c.env" });
      const F = await ctx.load("core/src/facade.js");
      const p = A.object({ v: M.bindEnv(A.option("--v", A.vp.integer()), { context: cx, key: "V", parser: A.vp.integer() }), w: M.bindEnv(A.option("--w", A.vp.string()), { context: cx, key: "W", parser: A.vp.string() }) });
      const r = F.runWithSync(p, "prog", [cx], { args: ["--w", "cli"] }); ctx.exec(1);
      if (r.v !== 7 || r.w !== "cli") ctx.violation("bound", `bound parsers read ${show(r)}`, {}, 1);
      if (existsSync("executed")) ctx.violation("executed", "a command in a dotenv file was executed", {}, 1);
    } finally { process.chdir(old); delete process.env.VP29_REAL; }
  }
}
function bad(ctx, M, d) {
  ctx.begin(d);
  const r = real(M, d.p, () => undefined, undefined);
  ctx.outcome("malformed"); ctx.distinct(d.text);
  const why = !r.err ? "was accepted" : r.name !== "SyntaxError" ? "failed with " + r.err : !r.err.includes(d.p) ? "error does not name the file: " + r.err : !new RegExp(`\\b${d.line}\\b`).test(r.err.replace(d.p, "")) ? `error does not name line ${d.line}: ${r.err}` : undefined;
  if (why) ctx.violation("bad|" + d.text, `malformed ${show(d.text)} ${why}`, d, d.text.length);
}
function failing(ctx, M, d) {
  ctx.begin(d); ctx.exec(1);
  const paths = [join(ctx.scratch, "g0.env"), join(ctx.scratch, "g1.env")];
  writeFileSync(paths[d.at], d.text); writeFileSync(paths[1 - d.at], "Z=1\n");
  const boom = Object.assign(new Error("boom"), d.code ? { code: d.code, errno: -2, syscall: "spawn x", path: "x" } : {});
  let got, asked = 0;
  const files = d.missing ? [join(ctx.scratch, "never.env"), ...paths] : paths;
  try { M.createEnvContext({ source: (k) => { if (k === "R" && d.who === "source") { asked++; throw boom; } return undefined; }, envFile: { paths: files, substitute: (c) => { if (d.who === "substitute") { asked++; throw boom; } return ""; } } }); } catch (e) { got = e; }
  ctx.outcome("failing hook"); ctx.distinct(JSON.stringify(d));
  if (got !== boom || asked !== 1) ctx.violation("failing|" + JSON.stringify(d), `${d.who} fails with ${d.code ?? "a plain error"} while ${show(d.text)} is read: ${got === undefined ? "the failure is swallowed and the file skipped" : got !== boom ? "another error: " + got : "asked " + asked + " times"}`, d, d.text.length);
}
export async function replay(ctx, d) {
  mkdirSync(ctx.scratch, { recursive: true });
  const M = await ctx.load("env/src/index.js");
  if (d.fail) return failing(ctx, M, d);
  if (d.text !== undefined) { const p = join(ctx.scratch, "bad.env"); writeFileSync(p, d.text); return bad(ctx, M, { ...d, p }); }
  if (!d.texts) return run(ctx);
  const paths = d.texts.map((t, i) => { const p = join(ctx.scratch, `f${i}.env`); if (t == null) rmSync(p, { force: true }); else writeFileSync(p, t); return p; });
  judge(ctx, M, { ...d, texts: d.texts.map((t) => t ?? undefined) }, real(M, paths.length === 1 && d.form !== "arr" ? paths[0] : paths, (k) => d.src[k], d.hook ? (c) => SUB[c] : undefined, d.form));
}

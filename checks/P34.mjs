// P34: process runs: streams, exit codes and agreement of every way to start a run.
import { api, show, product, asyncOf } from "../lib/prog.mjs";
import { spawn } from "node:child_process";
import { fileURLToPath } from "node:url";
export const meta = {
  rule: "For every program, feature configuration and catalogued command line, every entry point (run, runSync, runAsync; with and without contexts), with arguments, name, streams and exit injected or left to the process, metadata in the program or in the options, gives the class the reference expects (value and silence; standard output and exit 0; standard error and the configured exit code), exits exactly once after its output, and prints the same text; a fixed sub-product of the configurations does the same in real child processes; print(), printError() and createPrinter() write the formatted message to the selected stream and exit only when told to.",
  assumptions: ["the text of help, completion scripts and errors is the matter of P17 and P23 to P26; here it only has to agree between the ways to run", "the catalogue avoids command words that a positional argument could take"],
};
const CHILD = fileURLToPath(new URL("../lib/p34child.mjs", import.meta.url));
export async function load(ctx) {
  const A = await api(ctx);
  return { A, run: await ctx.load("run/src/run.js"), print: await ctx.load("run/src/print.js"), env: await ctx.load("env/src/index.js"), program: await ctx.load("core/src/program.js"), msg: await ctx.load("core/src/message.js") };
}
// programs: parser and command lines; each line is [args, class] where class is "value" | "err" | a function of the configuration
const on = (f, how) => f === how || f === "both";
const H = (c) => c.help === "option" || c.help === "both" || c.help === "optobj" || c.help === "named";
const HC = (c) => on(c.help, "command") || c.help === "cmdobj", V = (c) => ["string", "both", "optobj"].includes(c.version), VC = (c) => ["both", "cmdobj"].includes(c.version), C = (c) => on(c.completion, "option"), CC = (c) => on(c.completion, "command");
const out = (f) => (c) => f(c) ? "out" : "err";
const helpOpt = (c) => c.help === "named" ? "--ayuda" : "--help";
const META = (pre) => [
  [(c) => [helpOpt(c)], out(H)], [(c) => [...pre, helpOpt(c)], out(H)], [["--version"], out(V), "version"], [[...pre, "--version"], out(V), "version"], [["help"], out(HC)], [["version"], out(VC), "version"],
  [["--completion", "bash"], out(C)], [["--completion=zsh"], out(C)], [["completion", "fish"], out(CC)], [["completion", "bash", "--"], out(CC), "maybe"], [["completion", "bash", ...pre, ""], out(CC), "maybe"], [["--completion=bash", "-"], out(C), "maybe"],
  [["completion"], "err"], [["--completion"], "err"], [["completion", "nosuch"], "err"], [["--completion", "nosuch"], "err"], [["--completion=nosuch"], "err"], [(c) => [helpOpt(c), "--nope"], out(H)], [["--version", "--nope"], out(V), "version"], [["-h"], "err"],
];
const PAR = {
  opts: { mk: (M) => M.A.object({ n: M.A.option("-n", "--num", M.A.vp.integer({ min: 1 })), v: M.A.withDefault(M.A.flag("--verbose"), false) }), lines: [[["-n", "5"], "value", { n: 5, v: false }], [["--num=7", "--verbose"], "value", { n: 7, v: true }], [[], "err"], [["-n", "x"], "err"], [["-n"], "err"], [["--nope"], "err"], [["-n", "5", "extra"], "err"], [["-n", "0"], "err"], [["-n", "5", "-n", "6"], "err"], ...META(["-n", "5"])] },
  cmds: { mk: (M) => M.A.or(M.A.command("build", M.A.object({ c: M.A.constant("build"), t: M.A.argument(M.A.vp.string()) }), { brief: M.msg.message`Build it` }), M.A.command("clean", M.A.object({ c: M.A.constant("clean") }))), lines: [[["build", "x"], "value", { c: "build", t: "x" }], [["clean"], "value", { c: "clean" }], [[], "err"], [["build"], "err"], [["nope"], "err"], [["clean", "x"], "err"], [(c) => ["build", helpOpt(c)], out(H)], [["help", "build"], out(HC)], ...META(["clean"])] },
  files: { mk: (M) => M.A.object({ f: M.A.multiple(M.A.argument(M.A.vp.string())) }), lines: [[[], "value", { f: [] }], [["a", "b"], "value", { f: ["a", "b"] }], [["--", "--help"], "value", { f: ["--help"] }], [["--nope"], "err"], [(c) => [helpOpt(c)], out(H)], [["--version"], out(V), "version"], [(c) => ["a", helpOpt(c)], out(H)]] },
  empty: { mk: (M) => M.A.object({}), lines: [[[], "value", {}], [["x"], "err"], [["--x"], "err"], ...META([])] },
  async: { async: 1, mk: (M) => M.A.object({ n: M.A.option("-n", asyncOf()(M.A.vp.integer({ min: 1 }))) }), lines: [[["-n", "5"], "value", { n: 5 }], [[], "err"], [["-n", "x"], "err"], [["--nope"], "err"], ...META(["-n", "5"])] },
};
PAR.env = { ctx: 1, mk: (M, ectx) => M.A.object({ n: M.env.bindEnv(M.A.option("-n", M.A.vp.integer({ min: 1 })), { context: ectx, key: "N", parser: M.A.vp.integer() }), v: M.A.withDefault(M.A.flag("--verbose"), false) }), lines: [[["-n", "5"], "value", { n: 5, v: false }], [[], "value", { n: 9, v: false }], [["--verbose"], "value", { n: 9, v: true }], [["-n", "x"], "err"], [["--nope"], "err"], ...META(["-n", "5"])] };
PAR.badenv = { ...PAR.env, envv: "junk", lines: [[["-n", "5"], "value", { n: 5, v: false }], [[], "err"], [["--verbose"], "err"], [["--nope"], "err"], ...META([])] };
export { PAR };
const HELP = { none: undefined, option: "option", command: "command", both: "both", optobj: { option: true }, cmdobj: { command: true }, named: { option: { names: ["--ayuda"] } } };
const VERS = { none: undefined, string: "1.2.3", both: { value: "1.2.3", command: true, option: true }, cmdobj: { value: "1.2.3", command: true }, optobj: { value: "1.2.3", option: true } };
const COMP = { none: undefined, option: "option", command: "command", both: "both" };
class Exit extends Error { constructor(c) { super("exit " + c); this.code = c; } }
/** Runs one configuration and gives {value} or lets the exit happen. */
export async function runOnce(M, d, sink = {}) {
  const P = PAR[d.par], m = M.msg.message, md = { brief: m`A brief line`, description: m`Some description`, footer: m`The footer`, author: m`Me`, bugs: m`Report bugs`, examples: m`Example: x` };
  const env = M.env.createEnvContext({ source: (k) => k === "N" ? P.envv ?? "9" : undefined });
  const parser = P.mk(M, env), o = { help: HELP[d.help], version: VERS[d.version], completion: COMP[d.completion], ...(d.above ? { aboveError: d.above } : {}), ...(d.code !== undefined ? { errorExitCode: d.code } : {}), ...(P.ctx || d.ctx ? { contexts: [env] } : {}), ...(d.ctx2 ? { contexts: [env, { id: Symbol("two"), phase: "two-pass", getAnnotations: () => ({}) }] } : {}), ...sink };
  if (!sink.ownArgs && d.injectArgs) o.args = d.args;
  delete o.ownArgs;
  let prog = parser;
  if (d.meta === "program") prog = M.program.defineProgram({ parser, metadata: { name: "prog", ...md } });
  else if (d.meta === "options") Object.assign(o, { programName: "prog" }, md);
  else if (d.meta === "override") { prog = M.program.defineProgram({ parser, metadata: { name: "other", ...md, brief: m`Other`, footer: m`Other` } }); Object.assign(o, { programName: "prog", brief: md.brief, footer: md.footer }); }
  else if (d.meta === "name") o.programName = "prog";
  const r = M.run[d.entry](prog, o);
  if (d.entry === "runAsync" && !(r instanceof Promise)) throw new Error("runAsync() gave no promise");
  if (d.entry === "runSync" && r instanceof Promise) throw new Error("runSync() gave a promise");
  return await r;
}
const S = {};
export async function observe(M, d) {
  const log = [], exits = [];
  const add = (w) => (t, ...rest) => { log.push([w, String(t)]); const cb = rest.at(-1); if (typeof cb === "function") cb(); return true; };
  const sink = {};
  if (d.inject) Object.assign(sink, { stdout: (t) => log.push(["out", t + "\n"]), stderr: (t) => log.push(["err", t + "\n"]), onExit: (c) => { exits.push(c); log.push(["exit", c]); throw new Exit(c); } });
  const keep = { out: process.stdout.write, err: process.stderr.write, exit: process.exit, argv: process.argv, tty: process.stdout.isTTY, etty: process.stderr.isTTY, cols: process.stdout.columns, le: console.log, ee: console.error };
  const line = (w) => (...a) => add(w)(a.join(" ") + "\n");
  let res;
  process.stdout.write = add("out"); process.stderr.write = add("err"); console.log = line("console"); console.error = line("console");
  process.exit = (c) => { exits.push(c ?? 0); log.push(["exit", c ?? 0]); throw new Exit(c ?? 0); };
  process.argv = [keep.argv[0], "/some/where/prog", ...d.args];
  if (d.tty) { process.stdout.isTTY = true; process.stdout.columns = 50; } else { process.stdout.isTTY = undefined; process.stdout.columns = undefined; }
  if (d.etty) process.stderr.isTTY = true;
  try { res = { value: await runOnce(M, d, { ...sink, ...(d.force ? { colors: true, maxWidth: 50 } : {}) }) }; }
  catch (e) { res = e instanceof Exit ? { exit: e.code } : { thrown: String(e?.stack ?? e).slice(0, 200) }; }
  finally { process.stdout.write = keep.out; process.stderr.write = keep.err; process.exit = keep.exit; process.argv = keep.argv; process.stdout.isTTY = keep.tty; process.stderr.isTTY = keep.etty; process.stdout.columns = keep.cols; console.log = keep.le; console.error = keep.ee; }
  return { ...res, exits, log, out: log.filter((l) => l[0] === "out").map((l) => l[1]).join(""), err: log.filter((l) => l[0] === "err").map((l) => l[1]).join(""), other: log.filter((l) => l[0] === "console").length };
}
export const cls = (d) => { const l = PAR[d.par].lines[d.line]; return typeof l[1] === "function" ? l[1](d) : l[1]; };
export const argsOf = (d) => { const a = PAR[d.par].lines[d.line][0]; return typeof a === "function" ? a(d) : a; };
export function judge(d, g) {
  const want = cls(d), l = PAR[d.par].lines[d.line], bad = [], code = want === "out" ? 0 : d.code ?? 1;
  if (g.thrown) { bad.push("threw " + g.thrown); return bad; }
  if (g.other) bad.push("printed on the console");
  if (want === "value") {
    if (g.exit !== undefined) bad.push(`exited ${g.exit}, should give a value; ${g.err.slice(0, 80)}`);
    else if (show(g.value) !== show(l[2])) bad.push(`gave ${show(g.value)}, should be ${show(l[2])}`);
    if (g.out || g.err) bad.push("printed although it gave a value");
    if (g.exits.length) bad.push("called exit");
    return bad;
  }
  if (g.exit === undefined) { bad.push(`gave ${show(g.value)}, should exit ${code}`); return bad; }
  if (g.exits.length !== 1 || g.exits[0] !== code) bad.push(`exits ${show(g.exits)}, should be [${code}]`);
  if (g.log.length && g.log.at(-1)[0] !== "exit") bad.push("printed after the exit");
  if (want === "out") {
    if (g.err) bad.push(`standard error got ${show(g.err.slice(0, 60))}`);
    if (!g.out && l[2] !== "maybe") bad.push("nothing on standard output");
    if (l[2] === "version" && g.out !== "1.2.3\n") bad.push(`version text ${show(g.out.slice(0, 40))}`);
    if (l[2] === undefined && !/ompletion/.test(argsOf(d)[0]) && !/Usage:/.test(g.out)) bad.push("no usage on the help page");
  } else {
    if (g.out) bad.push(`standard output got ${show(g.out.slice(0, 60))}`);
    if (!/Error:/.test(g.err)) bad.push(`no error message: ${show(g.err.slice(0, 60))}`);
    if (!/ompletion/.test(argsOf(d)[0] ?? "")) {
      const usage = /Usage:/.test(g.err), page = /A brief line/.test(g.err), above = d.above ?? "usage";
      if (usage !== (above !== "none")) bad.push(`aboveError ${above}: usage ${usage}`);
      if (d.meta && d.meta !== "name" && page !== (above === "help")) bad.push(`aboveError ${above}: page ${page}`);
      if (usage && g.err.indexOf("Usage:") > g.err.indexOf("Error:")) bad.push("the usage stands below the error");
    }
  }
  return bad;
}
const name = (d) => `${d.entry} ${d.par} <${d.args.join(" ")}> help ${d.help} version ${d.version} completion ${d.completion} above ${d.above ?? "-"} code ${d.code ?? "-"} meta ${d.meta ?? "-"}${d.inject ? " injected" : ""}${d.injectArgs ? " args" : ""}${d.ctx ? " ctx" : ""}${d.ctx2 ? " ctx2" : ""}${d.tty ? " tty" : ""}${d.force ? " force" : ""}`;
let k = 0;
async function one(ctx, M, d, texts) {
  ctx.begin(d); ctx.exec(1); ctx.transition(d.args.length);
  const g = await observe(M, d), bad = judge(d, g), want = cls(d);
  if (texts && !g.thrown) { // every way to run prints the same
    const key = d.tty || d.force ? 1 : 0, t = show({ out: g.out, err: g.err, exit: g.exit, value: g.value });
    if (texts[key] === undefined) texts[key] = { t, n: name(d) }; else if (texts[key].t !== t) bad.push(`differs from ${texts[key].n}: ${diff(texts[key].t, t)}`);
  }
  ctx.outcome(want); ctx.distinct(`${d.par} ${d.args} ${d.help} ${d.version} ${d.completion} ${d.above} ${d.code} ${g.exit}`);
  if (bad.length) ctx.violation(`${d.par}|${d.line}|${d.entry}|${bad[0].slice(0, 30)}`, `${name(d)}: ${bad.join("; ")}`, d, d.args.length + 5 * (d.meta ? 1 : 0));
  else if (k++ % 20000 === 1) ctx.sample({ run: name(d), exit: g.exit ?? null, out: g.out.length, err: g.err.length });
  return g;
}
const diff = (a, b) => { let i = 0; while (a[i] === b[i] && i < a.length) i++; return `${a.slice(Math.max(0, i - 20), i + 40)} / ${b.slice(Math.max(0, i - 20), i + 40)}`; };
export function child(M, d, dist) {
  return new Promise((res) => {
    const p = spawn(process.execPath, [CHILD, ...d.args], { env: { PATH: process.env.PATH, P34_CONF: JSON.stringify({ ...d, dist, args: undefined }) }, stdio: ["ignore", "pipe", "pipe"] });
    let out = "", err = ""; p.stdout.on("data", (c) => out += c); p.stderr.on("data", (c) => err += c);
    p.on("close", (code, sig) => res({ out, err, code, sig }));
  });
}
async function oneChild(ctx, M, d) {
  ctx.begin(d); ctx.exec(1);
  const c = await child(M, d, ctx.dist), g = await observe(M, { ...d, injectArgs: 0, inject: 0 }), bad = [];
  const want = { out: g.out + (g.exit === undefined ? "VALUE " + JSON.stringify(g.value) + "\n" : ""), err: g.err, code: g.exit ?? 0 };
  for (const f of ["code", "out", "err"]) if (c[f] !== want[f]) bad.push(`process ${f} ${typeof c[f] === "string" ? diff(want[f], c[f]) : c[f] + ", should be " + want[f]}`);
  if (c.sig) bad.push("died of " + c.sig);
  bad.push(...judge(d, g));
  ctx.outcome("child " + cls(d)); ctx.distinct(`child ${d.par} ${d.args} ${c.code}`);
  if (bad.length) ctx.violation(`child|${d.par}|${d.line}|${d.entry}`, `process ${name(d)}: ${bad.join("; ")}`, { ...d, child: 1 }, d.args.length);
}
// --- printing ---------------------------------------------------------------
const MSGS = (m) => [[], m.message`plain`, m.message`Value ${"x y"} of ${m.optionName("--opt")} in ${m.metavar("FILE")} for ${m.commandLine("a b")}`, m.message`${m.values(["a", "b"])} ${m.text("line\n\nnext paragraph")}`, [...m.message`long text that has to be wrapped somewhere or other, `, ...m.message`${m.optionNames(["-a", "--bb"])}${m.lineBreak()}tail`]];
function printOne(ctx, M, d) {
  ctx.begin(d); ctx.exec(1); ctx.transition(1);
  const log = [], keep = { o: process.stdout.write, e: process.stderr.write, x: process.exit, t: [process.stdout.isTTY, process.stderr.isTTY, process.stdout.columns, process.stderr.columns] }, bad = [];
  const msg = MSGS(M.msg)[d.msg], opt = Object.fromEntries(Object.entries({ stream: d.stream, colors: d.colors, quotes: d.quotes, maxWidth: d.width, ...(d.fn === "printError" ? { exitCode: d.exit } : {}) }).filter(([, v]) => v !== undefined));
  process.stdout.write = (t) => { log.push(["stdout", t]); return true; }; process.stderr.write = (t) => { log.push(["stderr", t]); return true; }; process.exit = (c) => { log.push(["exit", c]); throw new Exit(c); };
  process.stdout.isTTY = d.otty; process.stderr.isTTY = d.etty; process.stdout.columns = d.otty ? 30 : undefined; process.stderr.columns = d.etty ? 24 : undefined;
  try { if (d.fn === "createPrinter") { const p = M.print.createPrinter(opt); p(msg); } else M.print[d.fn](msg, ...(Object.keys(opt).length || d.some ? [opt] : [])); } catch (e) { if (!(e instanceof Exit)) bad.push("threw " + e); }
  finally { process.stdout.write = keep.o; process.stderr.write = keep.e; process.exit = keep.x; [process.stdout.isTTY, process.stderr.isTTY, process.stdout.columns, process.stderr.columns] = keep.t; }
  const stream = d.stream ?? (d.fn === "printError" ? "stderr" : "stdout"), tty = stream === "stdout" ? d.otty : d.etty;
  const f = { colors: d.colors ?? tty, quotes: d.quotes ?? (d.fn === "printError" ? !tty : undefined), maxWidth: d.width ?? (tty ? stream === "stdout" ? 30 : 24 : undefined) };
  const text = M.A.formatMessage(d.fn === "printError" ? [{ type: "text", text: "Error: " }, ...msg] : msg, f) + "\n";
  const want = [[stream, text], ...(d.fn === "printError" && d.exit !== undefined ? [["exit", d.exit]] : [])];
  const got = log.reduce((a, l) => (a.length && a.at(-1)[0] === l[0] && l[0] !== "exit" ? a.at(-1)[1] += l[1] : a.push([...l]), a), []);
  if (show(got) !== show(want)) bad.push(`${show(got).slice(0, 160)}, should be ${show(want).slice(0, 160)}`);
  ctx.outcome("print"); ctx.distinct(show(d));
  if (bad.length) ctx.violation(`print|${d.fn}|${d.stream}|${d.exit}`, `${d.fn}(message ${d.msg}, ${show(opt)})${d.otty ? " stdout tty" : ""}${d.etty ? " stderr tty" : ""}: ${bad.join("; ")}`, d, 1);
}
export async function run(ctx) {
  const M = await load(ctx), deep = !ctx.quick; let t = 0;
  const ENT = ["run", "runSync", "runAsync"];
  for (const par of Object.keys(PAR)) for (const [help, version, completion] of product(Object.keys(HELP), Object.keys(VERS), Object.keys(COMP))) {
    // quick: every pair of help and version settings, with half of the completion settings each
    if (!deep && (Object.keys(HELP).indexOf(help) + Object.keys(VERS).indexOf(version) + Object.keys(COMP).indexOf(completion)) % 2) continue;
    if (!ctx.next()) continue;
    ctx.state(1);
    for (let line = 0; line < PAR[par].lines.length; line++) for (const [above, code] of deep ? product([undefined, "usage", "help", "none"], [undefined, 2, 0, 77]) : [[[undefined, undefined], ["none", 2], ["help", 0], ["usage", 77], ["help", undefined]][t++ % 5]]) {
      const base = { par, help, version, completion, above, code, line }; base.args = argsOf(base);
      const texts = {}; // named metadata, same program name
      const v = (o) => ({ ...base, meta: "options", inject: 1, injectArgs: 1, ...o });
      const variants = [v({ entry: "run" }), v({ entry: "runAsync", inject: 0 }), v({ entry: "run", injectArgs: 0, meta: "program" }), v({ entry: "runAsync", meta: "override", injectArgs: 0, inject: 0 }), v({ entry: "run", inject: 0, meta: "program" }), v({ entry: ["run", "runAsync"][t % 2], ctx: 1 }), v({ entry: "run", ctx2: 1, inject: t % 2 }), v({ entry: "run", etty: 1, inject: 0 })];
      if (!PAR[par].async) variants.push(v({ entry: "runSync" }), v({ entry: "runSync", inject: 0, meta: "override" }), v({ entry: "runSync", ctx: 1, meta: "program" }), v({ entry: "runSync", ctx2: 1 }));
      variants.push(v({ entry: "run", tty: 1, inject: 0 }), v({ entry: "run", force: 1 }));
      for (const d of variants) await one(ctx, M, d, texts);
      // default name from process.argv and the bare name
      const names = {};
      for (const d of [v({ entry: "run", meta: undefined, inject: 0, injectArgs: 0 }), v({ entry: "run", meta: "name" }), v({ entry: "runAsync", meta: undefined })]) await one(ctx, M, d, names);
    }
    if (ctx.checkTime()) return;
  }
  // real processes
  const confs = [["both", "both", "both"], ["none", "none", "none"], ["option", "string", "option"], ...(deep ? [["command", "cmdobj", "command"], ["named", "optobj", "both"]] : [])];
  for (const par of Object.keys(PAR)) for (const [help, version, completion] of confs) for (let line = 0; line < PAR[par].lines.length; line++) {
    if (!ctx.next()) continue;
    ctx.state(1);
    const d = { par, help, version, completion, line, above: [undefined, "help", "none"][line % 3], code: [undefined, 2, 77][line % 3], meta: ["options", "program"][line % 2], entry: PAR[par].async ? ["run", "runAsync"][line % 2] : ENT[line % 3] };
    d.args = argsOf(d); await oneChild(ctx, M, d);
    if (ctx.checkTime()) return;
  }
  for (const [fn, msg, stream, colors, quotes, width, exit, otty, etty] of product(["print", "printError", "createPrinter"], [0, 1, 2, 3, 4], [undefined, "stdout", "stderr"], [undefined, true, false], [undefined, true, false], [undefined, 20, 200], [undefined, 0, 1, 3], [undefined, true], [undefined, true])) {
    if (fn !== "printError" && exit !== undefined) continue;
    if (!ctx.next()) continue;
    printOne(ctx, M, { fn, msg, stream, colors, quotes, width, exit, otty, etty });
  }
}
export async function replay(ctx, d) { const M = await load(ctx); if (d.fn) printOne(ctx, M, d); else if (d.child) await oneChild(ctx, M, d); else { const texts = {}; for (const e of ["run", "runAsync"]) await one(ctx, M, { ...d, entry: e, inject: 1, injectArgs: 1, meta: "options", tty: 0, force: 0, ctx: 0, ctx2: 0 }, texts); await one(ctx, M, d, texts); } }

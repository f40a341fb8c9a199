// P35: command discovery: every small file set under every option setting, and every command line over every small command tree.
import { mkdirSync, writeFileSync, symlinkSync, rmSync, realpathSync } from "node:fs";
import { join, dirname } from "node:path";
import { pathToFileURL } from "node:url";
import { api, show, tokenLists, product, asyncOf } from "../lib/prog.mjs";
export const meta = {
  rule: "Every subset up to a bound of a universe of file names (entry files, nested and same-named directories, compound suffixes, declaration and test files, names special in URLs, strings and objects) is laid out on disk and as a module map and, for every extension list and entry-file setting, the commands found by discoverCommands(), commandsFromModules() and the generated module are compared with an independent derivation of path and identity; every small command tree with every kind of parser is then dispatched on every command line up to the bound and the handler calls are compared with the deepest-match reference.",
  assumptions: ["unspecified and skipped: names that are nothing but an extension, test marks not directly before the matched suffix, options before a subcommand, a subcommand word after a positional word", "the generated module of an empty set is only required not to contain commands"],
};
const UNIVERSE = ["index.ts", "build.ts", "build.cmd.ts", "build.js", "build.d.ts", "build.test.ts", "build.spec.cmd.ts", "user.ts", "user/index.ts", "user/add.ts", "user/add.cmd.ts", "user/index/index.ts", "user/index/add.ts", "mod.ts", "user/mod.ts", "a/b/c.ts", "note.txt", "user.add.ts", "indexed.ts", "user.ts/add.ts", "test.ts", "x.test/add.ts", "types.d.mts", "user/build.d.cmd.ts"];
const ODD = ["a b.ts", "a/b.ts", "50%.ts", "%41.ts", "a#b.ts", "a?b.ts", 'q"u.ts', "it's.ts", "é.ts", "e\u0301.ts", "日本/語.ts", "$x.ts", "`x`.ts", ".hid.ts", ".dir/x.ts", "__proto__.ts", "constructor/__proto__.ts", "a\nb.ts", "-x.ts", "a&b=c.ts", "A.ts", "a.ts", "x:y.ts", "c*/d.ts", "node_modules/m.ts"];
const EXTS = [[".ts"], [".cmd.ts"], [".ts", ".cmd.ts"], [".cmd.ts", ".ts"], [".ts", ".mts", ".js", ".mjs"], [".ts", ".ts"], [".js", ".d.ts", ".ts"]];
const ENTRIES = [undefined, "mod", false, "index"];
// ---- reference ---------------------------------------------------------------------------
// undefined: not a command file; null: unspecified; otherwise the command path
export function pathOf(file, exts, entry) {
  const segs = file.split("/"), name = segs.at(-1);
  if (/\.d\.[cm]?ts$/.test(name)) return undefined;
  const ext = [...exts].filter((e) => name.endsWith(e)).sort((a, b) => b.length - a.length)[0];
  if (ext === undefined) return undefined;
  const stem = name.slice(0, -ext.length);
  if (stem === "") return null;
  if (/\.(test|spec)$/.test(stem)) return undefined;
  if (/\.(test|spec)\./.test(stem)) return null;
  return stem === (entry === undefined ? "index" : entry) ? segs.slice(0, -1) : [...segs.slice(0, -1), stem];
}
export function expected(files, exts, entry) { // {commands: Map}|{error}|null
  const out = new Map();
  for (const f of files) {
    const p = pathOf(f, exts, entry);
    if (p === null) return null;
    if (p === undefined) continue;
    const key = JSON.stringify(p);
    if (out.has(key)) return { error: "duplicate" };
    out.set(key, f);
  }
  return out.size ? { commands: out } : { error: "none" };
}
export function* combos(xs, max, from = 0) { // all subsets of at most max elements, smallest first
  yield []; if (max > 0) for (let i = from; i < xs.length; i++) for (const c of combos(xs, max - 1, i + 1)) yield [xs[i], ...c];
}
const id = (f) => "f" + [...UNIVERSE, ...ODD].indexOf(f);
const say = (want) => want.error ? "a TypeError (" + want.error + ")" : show([...want.commands.keys()].sort());
// compares entries with the reference; tags are read from the commands' metadata
function compare(got, want, tagOf) {
  if (want.error) return got.e instanceof TypeError ? undefined : `gave ${got.e ?? show(got.v.map((c) => c.path))}, should be ${say(want)}`;
  if (got.e) return `failed with ${String(got.e).slice(0, 160)}, should give ${say(want)}`;
  const seen = got.v.map((c) => [JSON.stringify(c.path), tagOf(c)]).sort(), w = [...want.commands].map(([k, f]) => [k, id(f)]).sort();
  if (show(seen) !== show(w)) return `gave ${show(seen)}, should be ${show(w)}`;
}
const attempt = async (f) => { try { return { v: await f() }; } catch (e) { return { e }; } };
let serial = 0;
const tagOf = (c) => c.command.metadata?.tag ?? c.command.tag;
async function layout(ctx, d, W) {
  const root = join(ctx.scratch, "set" + serial++); mkdirSync(root, { recursive: true });
  const dir = join(root, "commands"); mkdirSync(dir);
  for (const f of d.files) { mkdirSync(dirname(join(dir, f)), { recursive: true }); symlinkSync(join(W.src, id(f) + (f.endsWith(".js") ? ".mjs" : f.endsWith(".txt") ? ".txt" : ".ts")), join(dir, f)); }
  return { root, dir };
}
async function files(ctx, W, d) {
  const want = expected(d.files, d.exts, d.entry);
  ctx.begin(d); ctx.exec(1); ctx.state(1); ctx.transition(d.files.length);
  if (!want) { ctx.outcome("unspecified"); return; }
  ctx.outcome(want.error ? "rejected: " + want.error : "commands"); ctx.distinct(show([d.exts, d.entry, say(want)]));
  const o = { extensions: d.exts, ...(d.entry === undefined ? {} : { entryFileName: d.entry }) }, bad = [];
  const put = (what, r, w = want) => { const b = compare(r, w, tagOf); if (b) bad.push(`${what} ${b}`); return r; };
  // module maps: several bases and value shapes
  const shapes = { default: (c) => ({ default: c }), bare: (c) => c, interop: (c) => ({ default: { default: c } }), esm: (c) => ({ __esModule: true, default: c }) };
  const bases = { "./commands": (f) => "./commands/" + f, commands: (f) => "./commands/" + f, "./commands/": (f) => "commands/" + f, "/abs/commands": (f) => "/abs/commands/" + f, "": (f) => "./" + f, ".": (f) => f, "../x/commands": (f) => "../x/commands/" + f, "./commands//": (f) => "./commands/./" + f.replace(/\//g, "//") };
  for (const [base, key] of Object.entries(bases).slice(0, d.files.length > 2 ? 2 : 8)) for (const [sn, shape] of Object.entries(shapes).slice(0, d.files.length > 2 ? 1 : 4)) {
    const map = Object.create(null); for (const f of d.files) map[key(f)] = shape(W.commands[f]);
    put(`a module map under ${JSON.stringify(base)} (${sn})`, await attempt(() => W.M.commandsFromModules(map, { ...o, ...(base === "" ? {} : { base }) })));
  }
  if (d.files.every((f) => !f.includes("\0"))) {
    const { root, dir } = await layout(ctx, d, W);
    const r = put("the directory", await attempt(() => W.M.discoverCommands({ dir: d.url ? pathToFileURL(dir + "/") : dir, ...o })));
    if (r.v) for (const c of r.v) if (![...want.commands ?? []].some(([k, f]) => k === JSON.stringify(c.path) && c.filePath === join(dir, f))) bad.push(`filePath of ${show(c.path)} is ${c.filePath}`);
    if (d.gen) {
      const out = join(root, d.inside ? "commands/out.gen" + serial + ".ts" : "out.gen" + serial + ".ts");
      const g = await attempt(() => W.G.generateCommandsModule({ dir, outputFile: out, ...o }));
      let e = g;
      if (!g.e) {
        if (!g.v.code.includes('"@optique/discover"')) bad.push("the generated module does not import @optique/discover");
        else {
          writeFileSync(out, g.v.code.replace('"@optique/discover"', JSON.stringify(W.url)));
          e = await attempt(async () => (await import(pathToFileURL(out).href)).default);
          // with its own output now in place, generating again gives the same module
          const again = await attempt(() => W.G.generateCommandsModule({ dir, outputFile: out, ...o }));
          if (again.e || again.v.code !== g.v.code) bad.push("generating again with the output in place gave another module");
        }
      }
      if (want.error === "none") { if (!e.e && e.v.length) bad.push(`the generated module holds ${show(e.v.map((c) => c.path))}`); }
      else put("the generated module", e);
    }
    rmSync(root, { recursive: true, force: true });
  }
  if (bad.length) ctx.violation(`files|${bad[0].split(" ").slice(0, 4).join(" ")}|${want.error ?? "ok"}`, `files ${show(d.files)}, extensions ${show(d.exts)}, entry ${show(d.entry)}: ${bad.join("; ")}`, d, d.files.length);
  else if (d.n % 3000 === 1) ctx.sample({ files: d.files, exts: d.exts, entry: d.entry, commands: say(want) });
}
// links: directories reached twice and cycles
const LINKS = [["a/self", "a"], ["loop", "."], ["b", "a"], ["a/sub/up", "a"], ["a/c", "c"], ["c/a", "a"], ["dead", "nowhere"], ["file.ts", "a/x.ts"]];
async function links(ctx, W, d) {
  ctx.begin(d); ctx.exec(1); ctx.state(1); ctx.transition(d.links.length); ctx.outcome("links"); ctx.distinct("links" + d.links);
  const root = join(ctx.scratch, "links"); rmSync(root, { recursive: true, force: true });
  const dir = join(root, "commands"), real = ["a/x.ts", "a/sub/y.ts", "c/z.ts"];
  for (const [i, f] of real.entries()) { mkdirSync(dirname(join(dir, f)), { recursive: true }); symlinkSync(join(W.src, `f${i}.ts`), join(dir, f)); }
  for (const [at, to] of d.links) symlinkSync(to === "nowhere" ? join(root, "nowhere") : join(dir, to), join(dir, at));
  const r = await attempt(() => W.M.discoverCommands({ dir, extensions: [".ts"] })), g = await attempt(() => W.G.generateCommandsModule({ dir, outputFile: join(root, "o.ts"), extensions: [".ts"] }));
  const bad = [];
  if (r.e) bad.push("discovery failed: " + r.e); else if (g.e) bad.push("generation failed: " + g.e);
  else {
    const got = new Map(r.v.map((c) => [c.path.join("/"), c.filePath]));
    const must = new Map([["a/x", 1], ["a/sub/y", 1], ["c/z", 1]]);
    if (d.links.some(([a]) => a === "b")) { must.set("b/x", 1); must.set("b/sub/y", 1); }
    if (d.links.some(([a]) => a === "file.ts")) must.set("file", 1);
    if (d.links.some(([a]) => a === "a/c")) must.set("a/c/z", 1);
    if (d.links.some(([a]) => a === "c/a")) must.set("c/a/x", 1);
    for (const k of must.keys()) if (!got.has(k)) bad.push(`${k} was not found`);
    for (const [k, f] of got) { if (f !== join(dir, k + ".ts")) bad.push(`${k} comes from ${f}`); else try { realpathSync(f); } catch { bad.push(`${k} does not exist`); } }
    // no directory is entered again below itself
    for (const k of got.keys()) { const segs = k.split("/").slice(0, -1), seen = new Set(); let p = dir; seen.add(realpathSync(dir)); for (const s of segs) { p = join(p, s); const q = realpathSync(p); if (seen.has(q)) { bad.push(`${k} goes through ${s} twice`); break; } seen.add(q); } }
    const gf = g.v.files.map((f) => f.filePath).sort(); if (show(gf) !== show([...got.values()].sort())) bad.push(`the generated module holds ${show(gf)}`);
  }
  if (bad.length) ctx.violation("links", `links ${show(d.links)}: ${bad.join("; ")}`, d, d.links.length);
}
// keys outside the base, wrong exports, wrong declared paths and options
async function wrong(ctx, W, d) {
  ctx.begin(d); ctx.exec(1); ctx.state(1); ctx.transition(1); ctx.outcome("rejected"); ctx.distinct("wrong" + show(d));
  const ok = W.commands["build.ts"], bads = { outside: [{ "./other/x.ts": { default: ok } }, { base: "./commands" }], sibling: [{ "./commands2/x.ts": { default: ok } }, { base: "./commands" }], up: [{ "./commands/../x.ts": { default: ok } }, { base: "./commands" }], itself: [{ "./commands.ts": { default: ok } }, { base: "./commands" }], absolute: [{ "/x.ts": { default: ok } }, { base: "." }], nodefault: [{ "./x.ts": { named: ok } }, {}], notcommand: [{ "./x.ts": { default: { parser: ok.parser, handler: ok.handler } } }, {}], nothing: [{ "./x.ts": undefined }, {}], nul: [{ "./x.ts": null }, {}], string: [{ "./x.ts": "x" }, {}], declared: [{ "./x.ts": { default: W.A.__define(["y"]) } }, {}], declaredroot: [{ "./x.ts": { default: W.A.__define([]) } }, {}], declaredlong: [{ "./x.ts": { default: W.A.__define(["x", "y"]) } }, {}], joined: [{ "./a/b.ts": { default: W.A.__define(["a b"]) } }, {}], array: [[ok], {}], empty: [{}, {}], ext: [{ "./x.ts": { default: ok } }, { extensions: [] }], ext2: [{ "./x.ts": { default: ok } }, { extensions: ["ts"] }], ext3: [{ "./x.ts": { default: ok } }, { extensions: ["."] }], entry: [{ "./x.ts": { default: ok } }, { entryFileName: "" }], entry2: [{ "./x.ts": { default: ok } }, { entryFileName: "a/b" }], base: [{ "./x.ts": { default: ok } }, { base: "" }] };
  const good = { declared: [{ "./x.ts": { default: W.A.__define(["x"]) } }, {}], declaredroot: [{ "./index.ts": { default: W.A.__define([]) } }, {}], declareddeep: [{ "./a/b.ts": { default: W.A.__define(["a", "b"]) } }, {}], ignored: [{ "./x.ts": { default: ok }, "./y.d.ts": {}, "./z.test.ts": {}, "./readme.md": "text" }, {}] };
  if (d.list) return [Object.keys(bads), Object.keys(good)];
  const [m, o] = (d.good ? good : bads)[d.name];
  const r = await attempt(() => W.M.commandsFromModules(m, { extensions: [".ts"], ...o }));
  if (d.good ? r.e || r.v.length !== 1 : !(r.e instanceof TypeError)) ctx.violation(`wrong|${d.name}`, `${d.name}: gave ${r.e ?? show(r.v.map((c) => c.path))}, should ${d.good ? "be accepted" : "be a TypeError"}`, d, 1);
}
// ---- dispatch ----------------------------------------------------------------------------
const PATHS = [[], ["build"], ["user"], ["user", "add"], ["user", "add", "x"], ["user", "build"], ["x", "user"]];
const KINDS = ["empty", "arg", "opt", "many", "optarg", "argopt"];
function parserOf(A, kind, async) {
  const s = async ? asyncOf()(A.vp.string()) : A.vp.string();
  switch (kind) {
    case "empty": return A.object({});
    case "arg": return A.object({ w: A.argument(s) });
    case "opt": return A.object({ n: A.optional(A.option("-n", s)), f: A.optional(A.flag("-f")) });
    case "many": return A.object({ w: A.multiple(A.argument(s)) });
    case "argopt": return A.object({ w: A.argument(s), n: A.optional(A.option("-n", s)), f: A.optional(A.flag("-f")) });
    case "optarg": return A.object({ w: A.optional(A.argument(s)) });
  }
}
function leaf(kind, toks) { // value or null
  const words = [], v = {};
  let n, f;
  for (let i = 0; i < toks.length; i++) {
    const t = toks[i];
    if (t === "-n" || t === "-f") { if (kind !== "opt" && kind !== "argopt") return null; if (t === "-f") { if (f) return null; f = true; } else { if (n !== undefined || i + 1 >= toks.length) return null; n = toks[++i]; } continue; }
    words.push(t);
  }
  switch (kind) {
    case "empty": return words.length ? null : {};
    case "arg": return words.length === 1 ? { w: words[0] } : null;
    case "opt": return words.length ? null : { n, f };
    case "many": return { w: words };
    case "argopt": return words.length === 1 ? { w: words[0], n, f } : null;
    case "optarg": return words.length < 2 ? { w: words[0] } : null;
  }
}
export function dispatch(tree, toks) { // tree: [[path, kind]]; -> {path, value} | "error" | null (unspecified)
  let at = [], i = 0;
  const isNode = (p) => tree.some(([q]) => q.length >= p.length && p.every((s, j) => s === q[j]));
  while (i < toks.length && isNode([...at, toks[i]])) at = [...at, toks[i++]];
  const rest = toks.slice(i);
  // a subcommand word later in the line of a command with subcommands is not specified
  if (rest.some((t) => isNode([...at, t]))) return null;
  // nor is whether an outer command with open positionals takes the words
  const own = tree.find(([q]) => q.length === at.length && q.every((s, j) => s === at[j]));
  if (!own) return "error";
  const v = leaf(own[1], rest);
  return v === null ? "error" : { path: at, value: v };
}
class Exit extends Error {}
async function program(ctx, W, d) {
  const want = dispatch(d.tree, d.toks); ctx.begin(d); ctx.exec(1); ctx.state(1); ctx.transition(d.toks.length + 1);
  if (!want) { ctx.outcome("line unspecified"); return; }
  ctx.outcome(want === "error" ? "no handler" : "handler"); ctx.distinct(show([d.tree.map((t) => t[0]), want]));
  const calls = [];
  const cmds = d.tree.map(([path, kind]) => ({ path, c: W.M.defineCommand({ ...(d.how === "declared" ? { path } : {}), parser: parserOf(W.A, kind, d.async), async handler(v) { await null; calls.push([path, v]); } }) }));
  const commands = d.how === "declared" ? cmds.map((x) => x.c) : d.how === "reversed" ? cmds.map((x) => ({ path: x.path, command: x.c })).reverse() : cmds.map((x) => ({ path: x.path, command: x.c }));
  const bad = [];
  for (const round of [1, 2]) { // the same commands twice: nothing is kept between runs
    calls.length = 0; let exits = [], err = "", out = "", e;
    try { await W.M.runProgram({ commands, metadata: { name: "prog" }, args: d.toks, ...(d.meta ? {} : { help: false, completion: false, version: false }), stdout: (s) => { out += s; }, stderr: (s) => { err += s; }, onExit(c) { exits.push(c); throw new Exit(); } }); } catch (x) { e = x; }
    if (want === "error") { if (calls.length || !(e instanceof Exit) || exits.length !== 1 || exits[0] === 0) bad.push(`run ${round}: handlers ${show(calls)}, exit ${show(exits)}${e && !(e instanceof Exit) ? " " + e : ""}, should be an error`); else if (out) bad.push("the error wrote to stdout"); else if (!err) bad.push("no error text"); }
    else if (e || exits.length) bad.push(`run ${round}: exit ${show(exits)} ${String(e).slice(0, 100)} ${err.slice(0, 120)}, should run ${show(want)}`);
    else if (show(calls) !== show([[want.path, want.value]])) bad.push(`run ${round}: handlers ${show(calls)}, should be ${show(want)}`);
    if (bad.length) break;
  }
  if (bad.length) ctx.violation(`dispatch|${show(d.tree.map((t) => t[0].join(" ")))}|${d.tree.map((t) => t[1])}`, `${show(d.tree)} <${d.toks.join(" ")}> ${d.how}${d.async ? " async" : ""}: ${bad.join("; ")}`, d, d.tree.length * 10 + d.toks.length);
}
// ---- whole chain: directory -> runProgram({dir}) ------------------------------------------
async function chain(ctx, W, d) {
  const want = expected(d.files, [".ts"], undefined); ctx.begin(d); ctx.exec(1);
  if (!want?.commands) return;
  const { dir } = await layout(ctx, d, W);
  for (const [key, f] of want.commands) {
    const path = JSON.parse(key); globalThis.__p35 = []; let e;
    try { await W.M.runProgram({ dir, extensions: [".ts"], metadata: { name: "prog" }, args: path, stdout() {}, stderr() {}, help: false, completion: false, onExit() { throw new Exit(); } }); } catch (x) { e = x; }
    ctx.transition(1); ctx.outcome("chain");
    if (e || show(globalThis.__p35) !== show([id(f)])) ctx.violation("chain", `${show(d.files)}: running <${path.join(" ")}> called ${show(globalThis.__p35)}${e ? " and failed " + e : ""}, should call ${f}`, d, d.files.length);
  }
  rmSync(dirname(dir), { recursive: true, force: true });
}
async function setup(ctx) {
  const A = { ...await api(ctx) }, M = await ctx.load("discover/src/index.js"), G = await ctx.load("discover/src/generator.js");
  rmSync(ctx.scratch, { recursive: true, force: true });
  const src = join(ctx.scratch, "src"); mkdirSync(src, { recursive: true });
  const url = pathToFileURL(join(ctx.dist, "discover/src/index.js")).href, core = pathToFileURL(join(ctx.dist, "core/src/constructs.js")).href;
  const W = { A, M, G, src, url, commands: {} };
  const all = [...UNIVERSE, ...ODD];
  for (const f of all) {
    const text = `import { defineCommand } from ${JSON.stringify(url)};\nimport { object } from ${JSON.stringify(core)};\nexport default defineCommand({ parser: object({}), metadata: { tag: ${JSON.stringify(id(f))} }, handler() { (globalThis.__p35 ??= []).push(${JSON.stringify(id(f))}); } });\n`;
    writeFileSync(join(src, id(f) + ".ts"), text); writeFileSync(join(src, id(f) + ".mjs"), text); writeFileSync(join(src, id(f) + ".txt"), "not code");
    W.commands[f] = M.defineCommand({ parser: A.object({}), metadata: { tag: id(f) }, handler() {} });
  }
  A.__define = (path) => M.defineCommand({ path, parser: A.object({}), handler() {} });
  return W;
}
// a set can be laid out when no name is both a file and a directory
const possible = (fs) => fs.every((f) => !fs.some((g) => g.startsWith(f + "/")));
export async function run(ctx) {
  const W = await setup(ctx);
  const [bads, goods] = await wrong({ ...ctx, begin() {}, exec() {}, transition() {}, outcome() {}, distinct() {} }, W, { list: true });
  for (const name of bads) if (ctx.next()) await wrong(ctx, W, { kind: "wrong", name });
  for (const name of goods) if (ctx.next()) await wrong(ctx, W, { kind: "wrong", name, good: true });
  for (const ls of combos(LINKS, LINKS.length)) if (ctx.next()) await links(ctx, W, { kind: "links", links: ls });
  const size = ctx.quick ? 3 : 4; ctx.bound("files per set", size);
  let n = 0;
  for (const U of [UNIVERSE, ODD]) for (const fs of combos(U, U === ODD ? size - 1 : size)) {
    if (!possible(fs)) continue;
    for (const exts of U === ODD ? [[".ts"]] : EXTS) for (const entry of U === ODD ? [undefined, false] : ENTRIES) {
      n++; if (!ctx.next()) continue;
      if (ctx.quick && fs.length > 2 && (entry === "index" || exts.length === 1 && exts[0] === ".cmd.ts" || exts.length > 3)) continue;
      await files(ctx, W, { kind: "files", files: fs, exts, entry, n, url: n % 5 === 0, gen: fs.length <= (U === ODD ? 1 : 2) && (ctx.quick ? fs.length < 2 || exts.length === 2 && entry !== "index" : true), inside: n % 2 === 0 });
    }
    ctx.checkTime?.();
  }
  for (const fs of combos(UNIVERSE, 2)) if (fs.length && possible(fs) && ctx.next()) await chain(ctx, W, { kind: "chain", files: fs });
  const T = ["build", "user", "add", "x", "w", "-n", "-f"], len = ctx.quick ? 3 : 4; ctx.bound("command line length", len);
  for (const ps of combos(PATHS, ctx.quick ? 3 : 4)) {
    if (!ps.length) continue;
    const kinds = ps.length <= 2 || !ctx.quick && ps.length <= 3 ? [...product(...ps.map(() => KINDS))] : KINDS.map((k, i) => ps.map((_, j) => KINDS[(i + j) % KINDS.length]));
    for (const ks of kinds) for (const toks of tokenLists(T.filter((t) => t === "w" || (t[0] === "-" ? ks.includes("opt") || ks.includes("argopt") : ps.flat().includes(t))), ps.length > 2 && !ctx.quick ? 3 : len)) {
      if (!ctx.next()) continue;
      const tree = ps.map((p, i) => [p, ks[i]]), h = toks.length + ps.length;
      await program(ctx, W, { kind: "program", tree, toks, how: ["entries", "declared", "reversed"][h % 3], async: h % 2 === 0, meta: h % 4 === 0 });
    }
    ctx.checkTime?.();
  }
}
export async function replay(ctx, d) {
  const W = await setup(ctx);
  await { wrong, links, files, program, chain }[d.kind]({ ...ctx, quick: false }, W, d);
}

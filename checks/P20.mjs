// P20: path() against a model of the file system, for every state of a small
// tree, every option combination and every spelling of its paths.
import { mkdirSync, rmSync, writeFileSync, symlinkSync, lstatSync, readdirSync, readlinkSync, readFileSync, utimesSync } from "node:fs";
import { join } from "node:path";
export const meta = {
  rule: "For every assignment of {absent, file, directory, directory with a file, link to each, dangling link} to the names of a scratch directory, every combination of type, existence mode, allowCreate and extensions, and every path spelling: path() accepts exactly when a reference path resolution over that tree satisfies the documented conditions, returns the input unchanged, and leaves every entry (content, target, times) as it was; suggestions carry the configured filters.",
  assumptions: ["not specified: extension rules for an existing directory under type either, whether a dangling link exists for mustNotExist, parents of paths ending in . or ..", "writability is not checked by the documented behaviour, only existence of the parent directory"],
  quickLimitS: 200, thoroughLimitS: 3000,
};
const KINDS = ["absent", "file", "dir", "full", "lfile", "ldir", "dangle"];
const CONFIGS = [];
for (const type of ["either", "file", "directory"]) for (const mode of ["", "must", "not"]) for (const allowCreate of [undefined, false, true]) for (const extensions of [undefined, [], [".json"], [".log", ".json"], [".d.ts"]]) CONFIGS.push({ type, ...(mode === "must" ? { mustExist: true } : mode === "not" ? { mustNotExist: true } : {}), ...(allowCreate === undefined ? {} : { allowCreate }), ...(extensions ? { extensions } : {}) });
// the reference tree: name -> { t: "file" } | { t: "dir", c: {..} } | { t: "link", to: "path" }
function tree(state) {
  const root = { t: "dir", c: { T: { t: "file" }, TD: { t: "dir", c: { "c.json": { t: "file" } } } } };
  for (const [n, k] of Object.entries(state)) if (k !== "absent") root.c[n] = k === "file" ? { t: "file" } : k === "dir" ? { t: "dir", c: {} } : k === "full" ? { t: "dir", c: { "c.json": { t: "file" }, in: { t: "dir", c: {} } } } : { t: "link", to: k === "lfile" ? "T" : k === "ldir" ? "TD" : "nowhere" };
  return root;
}
function create(dir, node) {
  mkdirSync(dir, { recursive: true });
  for (const [n, x] of Object.entries(node.c)) { const p = join(dir, n); if (x.t === "file") { writeFileSync(p, n); } else if (x.t === "dir") create(p, x); else symlinkSync(x.to, p); }
}
// POSIX path resolution over the tree; returns the node, "dangling" or undefined
function resolve(root, base, input) {
  if (input.includes("\0")) return undefined;
  let p = input; if (p.startsWith("/")) { if (p !== base && !p.startsWith(base + "/")) return "outside"; p = p.slice(base.length).replace(/^\/+/, ""); }
  const must = /\/$/.test(p), parts = p.split("/").filter((x) => x !== "");
  let stack = [root], dangling = false;
  for (const [i, part] of parts.entries()) {
    const cur = stack.at(-1); if (cur.t !== "dir") return undefined;
    if (part === ".") continue; if (part === "..") { if (stack.length === 1) return "outside"; stack.pop(); continue; }
    let n = Object.hasOwn(cur.c, part) ? cur.c[part] : undefined; if (n === undefined) return undefined;
    if (n.t === "link") { const t = root.c[n.to]; if (!t) return i === parts.length - 1 && !must ? "dangling" : undefined; stack = [root]; n = t; }
    stack.push(n);
  }
  if (must && stack.at(-1).t !== "dir") return undefined;
  return stack.at(-1);
}
export function expect(c, root, base, s) {
  if (s.trim() === "") return false;
  const node = resolve(root, base, s); if (node === "outside") return undefined;
  const isDir = node?.t === "dir";
  if (c.type !== "directory" && c.extensions?.length) {
    if (c.type === "either" && isDir) return undefined;
    if (s.includes("\\")) return undefined;
    const last = s.endsWith("/") ? "" : s.split("/").at(-1);
    if (!c.extensions.some((e) => last.endsWith(e))) return false;
  }
  if (c.mustNotExist) { if (node === "dangling") return undefined; if (node !== undefined) return false; }
  if (c.mustExist) {
    if (node === undefined || node === "dangling") return false;
    if (c.type === "file" && node.t !== "file" || c.type === "directory" && node.t !== "dir") return false;
  }
  if (c.allowCreate && !c.mustExist) {
    const bare = s.replace(/\/+$/, ""), last = bare.split("/").at(-1); if (last === "." || last === "..") return undefined;
    const k = bare.lastIndexOf("/"), parent = k < 0 ? "." : bare.slice(0, k).replace(/\/+$/, "") || "/";
    const pn = resolve(root, base, parent); if (pn === "outside") return undefined;
    return pn !== undefined && pn !== "dangling" && pn.t === "dir";
  }
  return true;
}
function inputsOf(names, base) {
  const out = ["", " ", "\t", ".", "./", "..", "T", "TD/c.json", "nowhere", "a b.json", "no\0pe", "-x.json", "d.ts", "x.d.ts", ".json", "json"];
  for (const n of names) out.push(n, `./${n}`, `${n}/`, `${n}//`, `${n}/c.json`, `${n}/c.json/`, `${n}/new.json`, `${n}/in/new.json`, `${n}/no/new.json`, `${n}/.`, `${n}/../${n}`, `${n}/..`, `.//${n}`, `${base}/${n}`, `${base}/${n}/new.log`, ` ${n}`, `${n} `, `${n}.json`, n.toUpperCase());
  return [...new Set(out)];
}
function snapshot(dir, rel = "", out = {}) {
  for (const n of readdirSync(dir).sort()) { const p = join(dir, n), st = lstatSync(p), k = rel + "/" + n; out[k] = st.isSymbolicLink() ? "->" + readlinkSync(p) : st.isDirectory() ? `dir ${st.mtimeMs} ${st.mode}` : `file ${readFileSync(p, "utf8")} ${st.mtimeMs} ${st.mode}`; if (st.isDirectory()) snapshot(p, k, out); }
  return out;
}
const msgText = (m) => m.map((t) => t.text ?? t.value ?? t.values?.join(" ") ?? "").join("");
const ERR = Object.fromEntries(["emptyPath", "invalidExtension", "pathNotFound", "pathAlreadyExists", "notAFile", "notADirectory", "parentNotFound"].map((k) => [k, [{ type: "text", text: `custom ${k}` }]]));
function one(ctx, A, root, base, d, P) {
  const { c, s } = d, p = P ?? A.path(c); ctx.state(); ctx.transition(); ctx.exec();
  const want = expect(c, root, base, s.startsWith("BASE") ? base + s.slice(4) : s), input = s.startsWith("BASE") ? base + s.slice(4) : s;
  const fail = (m) => ctx.violation(JSON.stringify(d), `path(${JSON.stringify(c)}) with ${JSON.stringify(d.state)}: ${m}`, d, s.length + JSON.stringify(c).length + Object.values(d.state).filter((x) => x !== "absent").length * 20);
  let r; try { r = p.parse(input); } catch (e) { return fail(`parse(${JSON.stringify(s)}) threw ${e}`); }
  ctx.outcome(want === undefined ? "not specified" : want ? "accept" : "reject");
  if (want !== undefined && r.success !== want) return fail(`${JSON.stringify(s)} should be ${want ? "accepted" : "rejected"}; got ${r.success ? "accepted" : "rejected: " + msgText(r.error)}`);
  if (r.success && r.value !== input) fail(`${JSON.stringify(s)} returned as ${JSON.stringify(r.value)}`);
  if (r.success && p.format(r.value) !== input) fail(`${JSON.stringify(s)} formatted as ${JSON.stringify(p.format(r.value))}`);
  if (!r.success && !r.error?.length) fail(`${JSON.stringify(s)} rejected without a message`);
}
function suggest(ctx, A, c, pre) {
  ctx.exec(); ctx.outcome("suggest"); const [g, ...rest] = [...A.path(c).suggest(pre)];
  const d = { sug: pre, c }, fail = (m) => ctx.violation(JSON.stringify(d), `path(${JSON.stringify(c)}).suggest(${JSON.stringify(pre)}): ${m}`, d, 5);
  const segs = pre.split("/"), last = segs.at(-1);
  if (rest.length || g?.kind !== "file") return fail("not one file suggestion");
  if (g.type !== (c.type === "either" ? "any" : c.type)) fail(`type ${g.type}`);
  if (JSON.stringify(g.extensions ?? []) !== JSON.stringify(c.extensions ?? [])) fail(`extensions ${g.extensions}`);
  if (g.pattern !== pre) fail(`pattern ${g.pattern}`);
  if (last.startsWith(".") && last !== "." && last !== ".." && !g.includeHidden) fail("hides hidden files though the typed name starts with a dot");
  if (segs.every((x) => !x.startsWith(".")) && g.includeHidden) fail("shows hidden files unasked");
}
function inTree(ctx, A, state, inputs, label, each) {
  const base = join(ctx.scratch, "p20"), root = tree(state); rmSync(base, { recursive: true, force: true }); create(base, root);
  const old = process.cwd(); process.chdir(base);
  const before = JSON.stringify(snapshot(base));
  try { each(base, root); } finally { process.chdir(old); }
  if (JSON.stringify(snapshot(base)) !== before) ctx.violation(`changed ${label}`, `parsing paths changed the directory ${label}`, { state, all: true }, 50);
  rmSync(base, { recursive: true, force: true });
}
function* states(quick) {
  const A3 = ["x", "a.json", ".h.log"];
  if (!quick) { for (const a of KINDS) for (const b of KINDS) for (const c of KINDS) yield { x: a, "a.json": b, ".h.log": c }; return; }
  for (const a of KINDS) for (const b of KINDS) yield { x: a, "a.json": b };
  for (const a of KINDS) yield { ".h.log": a, "b.d.ts": KINDS[(KINDS.indexOf(a) + 1) % 7] };
}
export async function run(ctx) {
  const A = await ctx.load("run/src/valueparser.js"); let n = 0;
  for (const c of CONFIGS) for (const pre of ["", "a", ".", "..", ".h", "d/", "d/.x", "./x", "../", "d/a.", ".git/x", "/", "a.json"]) if (ctx.next()) suggest(ctx, A, c, pre);
  for (const state of states(ctx.quick)) {
    if (!ctx.next()) continue; const names = Object.keys(state);
    inTree(ctx, A, state, null, JSON.stringify(state), (base, root) => {
      const inputs = inputsOf(names, "BASE");
      for (const c of CONFIGS) { const p = A.path(c); for (const s of inputs) { const d = { state, c, s }; ctx.begin(d); one(ctx, A, root, base, d, p); } }
      // custom messages replace the built-in ones and change no verdict
      for (const c of CONFIGS) { const p = A.path({ ...c, errors: ERR }), q = A.path(c); for (const s of inputs) { const i = s.startsWith("BASE") ? base + s.slice(4) : s, r = p.parse(i), w = q.parse(i); ctx.exec(2); if (r.success !== w.success || !r.success && !msgText(r.error).startsWith("custom ")) ctx.violation(`err ${JSON.stringify([c, s])}`, `path(${JSON.stringify(c)}) with custom errors on ${JSON.stringify(s)}: ${r.success ? "accepted" : msgText(r.error)}`, { state, c, s, custom: true }, 60); } }
    });
    for (const s of inputsOf(names, "BASE")) ctx.distinct(JSON.stringify(state) + s);
    if (n++ < 2) ctx.sample(state); ctx.checkTime();
  }
  ctx.bound("configurations", CONFIGS.length); ctx.bound("entry kinds", KINDS);
}
export async function replay(ctx, d) {
  const A = await ctx.load("run/src/valueparser.js"); if (d.sug !== undefined) return suggest(ctx, A, d.c, d.sug);
  inTree(ctx, A, d.state, null, "replay", (base, root) => { if (d.all) { for (const c of CONFIGS) for (const s of inputsOf(Object.keys(d.state), "BASE")) one(ctx, A, root, base, { state: d.state, c, s }); } else one(ctx, A, root, base, d); });
}

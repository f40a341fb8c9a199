// P21: the git value parsers over enumerated repository states, against a
// model of references and objects that is itself compared with the git program.
import { createHash } from "node:crypto";
import { deflateSync } from "node:zlib";
import { mkdirSync, rmSync, writeFileSync, symlinkSync, readdirSync, lstatSync, readFileSync } from "node:fs";
import { execFileSync } from "node:child_process";
import { join, dirname } from "node:path";
export const meta = {
  rule: "For every combination of HEAD state, branch set, tag set (lightweight, annotated, nested, same name as a branch, hexadecimal names), remote set (configured, fetched, both) and reference or object storage (loose, packed): each parser accepts an input exactly if the reference model says that branch, tag, remote, remote branch or commit exists, with the documented value, and every suggestion is an existing reference that starts with the prefix, is accepted by the parser and appears once; branches, tags and recent commits are all suggested. The repository is unchanged afterwards.",
  assumptions: ["not specified: references to trees or blobs, abbreviations shared by a commit and another object, HEAD of a remote, abbreviations of fewer than four digits given to gitRef(), pseudo references, inputs naming files inside the git directory", "the reference model agrees with the git program, checked in this run on a subset of the states"],
  quickLimitS: 300, thoroughLimitS: 3000,
};
const oidOf = (type, body) => createHash("sha1").update(Buffer.concat([Buffer.from(`${type} ${body.length}\0`), body])).digest("hex");
const B = (s) => Buffer.from(s, "latin1");
const commitBody = (tree, parents, msg, n = 0) => B(`tree ${tree}\n${parents.map((p) => `parent ${p}\n`).join("")}author A <a@b.c> ${1700000000 + n} +0000\ncommitter A <a@b.c> ${1700000000 + n} +0000\n\n${msg}\n`);
const tagBody = (o, type, name) => B(`object ${o}\ntype ${type}\ntag ${name}\ntagger A <a@b.c> 1700000000 +0000\n\n${name}\n`);
function objects() { // a fixed object store: name -> { type, body, oid }
  const O = {}, put = (n, type, body) => (O[n] = { type, body, oid: oidOf(type, body) }).oid;
  const blob = put("blob", "blob", B("hello\n")), tree = put("tree", "tree", Buffer.concat([B("100644 f\0"), Buffer.from(blob, "hex")]));
  const c1 = put("c1", "commit", commitBody(tree, [], "first\n\nbody", 1)), c2 = put("c2", "commit", commitBody(tree, [c1], "second", 2));
  for (let i = 0; ; i++) { const b = commitBody(tree, [c2], `twin ${i}`, 3); if (oidOf("commit", b).slice(0, 4) === c2.slice(0, 4)) { put("twin", "commit", b); break; } } // shares 4 digits with c2
  const seen = new Map(); for (let i = 0; i < 30000; i++) { const b = commitBody(tree, [c2], `near ${i}`, 4); seen.set(oidOf("commit", b).slice(0, 7), i); } // a commit and a blob sharing 7 digits
  for (let i = 0; ; i++) { const b = B(`near ${i}\n`), k = seen.get(oidOf("blob", b).slice(0, 7)); if (k !== undefined) { put("near", "commit", commitBody(tree, [c2], `near ${k}`, 4)); put("nearBlob", "blob", b); break; } }
  const a1 = put("a1", "tag", tagBody(c1, "commit", "rel")); put("a2", "tag", tagBody(a1, "tag", "nest")); put("at", "tag", tagBody(tree, "tree", "tree-tag"));
  return O;
}
const BR = { main: "c2", "feat/x": "c1", "abcd": "c1", v1: "twin", "feat/y.z": "c2" };
const TG = { v1: "c1", rel: "a1", nest: "a2", "feat/x": "c2", blobtag: "blob", "dead": "c2" };
const REMOTES = { none: {}, origin: { origin: { conf: 1, refs: { main: "c1", "feat/x": "c2" } } }, two: { origin: { conf: 1, refs: { main: "c1" } }, up: { conf: 1, refs: {} }, "a.b": { conf: 1, refs: { dev: "c2" } } }, ghost: { gone: { conf: 0, refs: { old: "c1" } }, Up: { conf: 1, refs: {} }, up: { conf: 1, refs: { main: "c2" } } }, slash: { "up/stream": { conf: 1, refs: { main: "c1" } }, up: { conf: 1, refs: { x: "c2" } } } };
const HEADS = { main: "ref: refs/heads/main\n", unborn: "ref: refs/heads/nothing\n", detached: "c1", near: "near" };
let OB, STORES;
function store(scratch) { // two object stores, loose and packed, shared by every state
  if (STORES) return; OB = objects(); const loose = join(scratch, "loose"), packed = join(scratch, "packed"); rmSync(scratch, { recursive: true, force: true });
  mkdirSync(join(loose, "pack"), { recursive: true }); mkdirSync(join(loose, "info"), { recursive: true });
  for (const o of Object.values(OB)) { mkdirSync(join(loose, o.oid.slice(0, 2)), { recursive: true }); writeFileSync(join(loose, o.oid.slice(0, 2), o.oid.slice(2)), deflateSync(Buffer.concat([Buffer.from(`${o.type} ${o.body.length}\0`), o.body]))); }
  const tmp = join(scratch, "tmp"); mkdirSync(join(tmp, ".git", "refs"), { recursive: true }); writeFileSync(join(tmp, ".git", "HEAD"), HEADS.main); symlinkSync(loose, join(tmp, ".git", "objects"));
  mkdirSync(join(packed, "pack"), { recursive: true }); mkdirSync(join(packed, "info"), { recursive: true });
  execFileSync("git", ["-C", tmp, "pack-objects", "-q", join(packed, "pack", "pack")], { input: Object.values(OB).map((o) => o.oid).join("\n") + "\n", stdio: ["pipe", "ignore", "ignore"], env: gitEnv() });
  STORES = { loose, packed };
}
const gitEnv = () => ({ PATH: process.env.PATH, HOME: "/nonexistent", GIT_CONFIG_NOSYSTEM: "1", GIT_CONFIG_GLOBAL: "/dev/null" });
const idOf = (n) => OB[n].oid;
function create(dir, st) {
  rmSync(dir, { recursive: true, force: true }); const g = join(dir, ".git"); mkdirSync(join(g, "refs", "heads"), { recursive: true }); mkdirSync(join(g, "refs", "tags"), { recursive: true });
  writeFileSync(join(g, "HEAD"), HEADS[st.head].startsWith("ref") ? HEADS[st.head] : idOf(HEADS[st.head]) + "\n"); symlinkSync(STORES[st.objects], join(g, "objects"));
  let conf = "[core]\n\trepositoryformatversion = 0\n\tbare = false\n"; const refs = {};
  for (const b of st.branches) refs[`refs/heads/${b}`] = idOf(BR[b]);
  for (const t of st.tags) refs[`refs/tags/${t}`] = idOf(TG[t]);
  for (const [r, x] of Object.entries(REMOTES[st.remotes])) { if (x.conf) conf += `[remote "${r}"]\n\turl = https://h/${r}.git\n\tfetch = +refs/heads/*:refs/remotes/${r}/*\n`; for (const [b, o] of Object.entries(x.refs)) refs[`refs/remotes/${r}/${b}`] = idOf(o); }
  writeFileSync(join(g, "config"), conf);
  const entries = Object.entries(refs).sort(([a], [b]) => a < b ? -1 : 1), packed = [];
  for (const [i, [r, o]] of entries.entries()) { if (st.refs === "packed" || st.refs === "mixed" && i % 2) packed.push([r, o]); else { mkdirSync(dirname(join(g, r)), { recursive: true }); writeFileSync(join(g, r), o + "\n"); } if (st.refs === "stale" && i % 2) packed.push([r, idOf("near")]); }
  if (packed.length) writeFileSync(join(g, "packed-refs"), "# pack-refs with: peeled fully-peeled sorted \n" + packed.map(([r, o]) => `${o} ${r}\n`).join(""));
}
const byOid = () => new Map(Object.values(OB).map((o) => [o.oid, o]));
function peel(oid) { const m = byOid(); let o = m.get(oid); while (o?.type === "tag") o = m.get(/^object (.*)$/m.exec(o.body.toString("latin1"))[1]); return o; }
function headOid(st) { const h = HEADS[st.head]; return h.startsWith("ref") ? (h.includes("/main") && st.branches.includes("main") ? idOf(BR.main) : undefined) : idOf(h); }
function history(st, depth) { const out = []; let c = headOid(st); const m = byOid(); while (c && out.length < depth) { out.push(c); c = /^parent (.*)$/m.exec(m.get(c).body.toString("latin1"))?.[1]; } return out; }
function commitOf(s) { // full or abbreviated commit id
  if (!/^[0-9a-fA-F]{4,40}$/.test(s)) return false; const hits = Object.values(OB).filter((o) => o.oid.startsWith(s.toLowerCase()));
  if (hits.length !== 1) return hits.length > 1 && hits.some((o) => o.type !== "commit") ? undefined : false;
  return hits[0].type === "commit" ? hits[0].oid : hits[0].type === "tag" ? undefined : false;
}
export function expect(st, kind, s) { // false, undefined, or the value
  if (kind === "branch") return st.branches.includes(s) ? s : false;
  if (kind === "tag") return st.tags.includes(s) ? s : false;
  if (kind === "remote") return REMOTES[st.remotes][s]?.conf ? s : false;
  if (kind.startsWith("rb:")) { const r = REMOTES[st.remotes][kind.slice(3)]; const nested = Object.entries(REMOTES[st.remotes]).find(([n]) => n.startsWith(kind.slice(3) + "/")); return nested && s.startsWith(nested[0].slice(kind.slice(3).length + 1)) ? undefined : r && Object.hasOwn(r.refs, s) ? s : false; }
  if (kind === "commit") return commitOf(s);
  // ref: a tag, branch or remote branch name, HEAD, or a commit id
  const REF = (o) => { const p = peel(o); return p?.type === "commit" ? p.oid : undefined; };
  const named = (n) => { if (n === "HEAD") return headOid(st); if (st.tags.includes(n)) return idOf(TG[n]); if (st.branches.includes(n)) return idOf(BR[n]); for (const [r, x] of Object.entries(REMOTES[st.remotes])) for (const [b, o] of Object.entries(x.refs)) if (n === `${r}/${b}`) return idOf(o); };
  if (s === "HEAD" && headOid(st) === undefined) return false;
  for (const [pre, set, map] of [["refs/heads/", st.branches, BR], ["heads/", st.branches, BR], ["refs/tags/", st.tags, TG], ["tags/", st.tags, TG]]) if (s.startsWith(pre)) { const n = s.slice(pre.length); return set.includes(n) ? REF(idOf(map[n])) : false; }
  if (/^(refs|remotes|logs|objects|info)\b/.test(s)) return undefined;
  const n = named(s); if (n !== undefined) { return REF(n); }
  if (Object.hasOwn(REMOTES[st.remotes], s) || s === "config" || s === "packed-refs") return s === "config" ? false : undefined;
  if (/^[0-9a-f]{1,3}$/i.test(s)) return undefined;
  return commitOf(s);
}
function inputs(st, quick) {
  const out = ["", " ", "main", "Main", "main ", "feat/x", "feat", "feat/", "x", "feat/y.z", "abcd", "dead", "v1", "v", "rel", "nest", "blobtag", "origin", "up", "Up", "a.b", "gone", "up/stream", "dev", "old", "origin/main", "up/main", "HEAD", "config", "refs/heads/main", "heads/main", "refs/tags/v1", "tags/rel", "refs/heads/v1", "nothing", "0".repeat(40), "f".repeat(40), "abc", "abcg", "12345", "-x", "main~1", "main^{}", "*", "..", "../x"];
  for (const n of Object.keys(OB)) { const o = idOf(n); for (const k of quick ? [1, 3, 4, 7, 8, 39, 40] : Array.from({ length: 40 }, (_, i) => i + 1)) out.push(o.slice(0, k)); out.push(o + "0", o.toUpperCase(), o.slice(0, 9).toUpperCase(), o.slice(0, 10) + "g", o.slice(0, 10) + (o[10] === "0" ? "1" : "0"), o.slice(0, 39) + (o[39] === "0" ? "1" : "0")); }
  return [...new Set(out)];
}
const KINDS = ["branch", "tag", "remote", "commit", "ref", "rb:origin", "rb:up", "rb:gone", "rb:a.b", "rb:nope", "rb:up/stream"];
function make(A, kind, dir, opts = {}) { const o = { dir, ...opts }; return kind === "branch" ? A.gitBranch(o) : kind === "tag" ? A.gitTag(o) : kind === "remote" ? A.gitRemote(o) : kind === "commit" ? A.gitCommit(o) : kind === "ref" ? A.gitRef(o) : A.gitRemoteBranch(kind.slice(3), o); }
function snap(dir, out = []) { for (const n of readdirSync(dir).sort()) { const p = join(dir, n), s = lstatSync(p); if (s.isSymbolicLink()) out.push("l" + n); else if (s.isDirectory()) { out.push("d" + n); snap(p, out); } else out.push(`f${n} ${s.mtimeMs} ${createHash("sha1").update(readFileSync(p)).digest("hex")}`); } return out; }
async function one(ctx, A, dir, d) {
  const { st, kind, s } = d, want = expect(st, kind, s); ctx.state(); ctx.transition(); ctx.exec();
  const fail = (m) => ctx.violation(`${JSON.stringify(st)} ${kind} ${s}`, `${kind} parser on ${JSON.stringify(s)} in ${JSON.stringify(st)}: ${m}`, d, JSON.stringify(st).length + s.length);
  let r; try { r = await make(A, kind, dir).parse(s); } catch (e) { return fail(`threw ${e}`); }
  ctx.outcome(`${kind.slice(0, 2) === "rb" ? "remote branch" : kind} ${want === undefined ? "not specified" : want === false ? "reject" : "accept"}`);
  if (want === undefined) return;
  if (r.success !== (want !== false)) return fail(`expected ${want === false ? "rejection" : want}, got ${r.success ? r.value : "rejection"}`);
  if (r.success && r.value !== want) fail(`expected ${want}, got ${r.value}`);
  if (!r.success && !r.error?.length) fail("rejected without a message");
}
async function suggest(ctx, A, dir, d) {
  const { st, kind, pre, depth } = d; ctx.state(); ctx.transition(); ctx.exec(); ctx.outcome("suggest " + (kind.slice(0, 2) === "rb" ? "remote branch" : kind));
  const fail = (m) => ctx.violation(`sug ${JSON.stringify(st)} ${kind} ${pre} ${depth}`, `${kind} suggestions for ${JSON.stringify(pre)} (depth ${depth}) in ${JSON.stringify(st)}: ${m}`, d, JSON.stringify(st).length + pre.length);
  const p = make(A, kind, dir, depth ? { suggestionDepth: depth } : {}), got = []; try { for await (const x of p.suggest(pre)) got.push(x.text); } catch (e) { return fail(`threw ${e}`); }
  if (new Set(got).size !== got.length) fail(`repeated: ${got.join(" ")}`);
  for (const t of got) { if (!t.startsWith(pre)) fail(`${t} does not match`); const w = expect(st, kind, t); if (w === undefined) continue; if (w === false) fail(`${t} does not exist`); else { const r = await p.parse(t); ctx.exec(); if (!r.success) fail(`${t} is not accepted: ${JSON.stringify(r.error)}`); } }
  const names = kind === "branch" ? st.branches : kind === "tag" ? st.tags : kind === "ref" ? [...st.branches, ...st.tags] : kind === "remote" ? Object.keys(REMOTES[st.remotes]).filter((r) => REMOTES[st.remotes][r].conf) : kind.startsWith("rb:") ? Object.keys(REMOTES[st.remotes][kind.slice(3)]?.refs ?? {}) : [];
  for (const n of names) if (n.startsWith(pre) && !got.includes(n)) fail(`${n} is missing`);
  if (kind === "commit" || kind === "ref") for (const o of history(st, depth ?? 15)) if (o.startsWith(pre) && !got.some((t) => t.length >= 7 && o.startsWith(t))) fail(`commit ${o} is missing`);
  if (kind === "commit") for (const t of got) { const h = history(st, depth ?? 15); if (!h.some((o) => o.startsWith(t))) fail(`${t} is not a recent commit`); }
}
function gitAgrees(dir, st) { // the model against the git program
  const g = (...a) => { try { return execFileSync("git", ["-C", dir, "-c", "safe.directory=*", ...a], { encoding: "utf8", stdio: ["ignore", "pipe", "ignore"], env: gitEnv() }).trim(); } catch { return undefined; } };
  const eq = (a, b, w) => { if (JSON.stringify(a) !== JSON.stringify(b)) throw new Error(`model and git disagree on ${w} in ${JSON.stringify(st)}: ${JSON.stringify(a)} / ${JSON.stringify(b)}`); };
  const lines = (x) => (x ?? "").split("\n").filter(Boolean).sort();
  eq(lines(g("for-each-ref", "--format=%(refname:lstrip=2)", "refs/heads")), [...st.branches].sort(), "branches"); eq(lines(g("for-each-ref", "--format=%(refname:lstrip=2)", "refs/tags")), [...st.tags].sort(), "tags");
  eq(lines(g("remote")), Object.keys(REMOTES[st.remotes]).filter((r) => REMOTES[st.remotes][r].conf).sort(), "remotes");
  for (const s of ["main", "feat/x", "v1", "rel", "nest", "abcd", "dead", "HEAD", "origin/main", idOf("c1"), idOf("c2").slice(0, 4), idOf("c2").slice(0, 9), idOf("twin").toUpperCase(), "0".repeat(40), idOf("blob"), "heads/main", "tags/v1"]) { const w = expect(st, "ref", s); if (w === undefined) continue; eq(g("rev-parse", "--verify", "--quiet", `${s}^{commit}`) ?? false, w, s); }
  const h = headOid(st); eq(lines(h && g("rev-list", "--max-count=15", "HEAD")), history(st, 15).sort(), "history");
}
const subsets = (xs) => xs.reduce((a, x) => a.flatMap((s) => [s, [...s, x]]), [[]]);
function* states(quick) {
  const seen = new Set(), out = function* (st) { const k = JSON.stringify(st); if (!seen.has(k)) { seen.add(k); yield st; } };
  const SB = subsets(quick ? ["main", "feat/x", "v1"] : Object.keys(BR)), ST = subsets(quick ? ["v1", "rel", "feat/x"] : Object.keys(TG)), RF = ["loose", "packed", "mixed", "stale"];
  for (const branches of SB) for (const tags of ST) for (const refs of RF) for (const objects of quick ? [refs === "packed" ? "packed" : "loose"] : ["loose", "packed"]) yield* out({ head: "main", branches, tags, remotes: "none", refs, objects });
  for (const head of Object.keys(HEADS)) for (const objects of quick ? [head === "near" || head === "main" ? "loose" : "packed"] : ["loose", "packed"]) for (const remotes of Object.keys(REMOTES)) for (const refs of quick ? ["mixed", "stale"] : RF) for (const [branches, tags] of [[Object.keys(BR), Object.keys(TG)], [["main"], []], [[], ["nest"]], [["feat/y.z"], ["blobtag"]]]) yield* out({ head, branches, tags, remotes, refs, objects });
}
async function inState(ctx, st, f) {
  store(join(ctx.scratch, "git-stores")); const dir = join(ctx.scratch, "repo"); create(dir, st); const before = JSON.stringify(snap(join(dir, ".git")));
  await f(dir); if (JSON.stringify(snap(join(dir, ".git"))) !== before) ctx.violation(`changed ${JSON.stringify(st)}`, `the repository was changed in ${JSON.stringify(st)}`, { st, all: true }, 99);
  rmSync(dir, { recursive: true, force: true });
}
const PRES = () => ["", "m", "f", "feat/", "v", "a", "zz", "o", idOf("c2").slice(0, 1), idOf("c2").slice(0, 5), idOf("near").slice(0, 7), idOf("near").slice(0, 8), idOf("c1")];
async function all(ctx, A, dir, st, extra) {
  const ins = inputs(st, ctx.quick), remote = st.remotes !== "none";
  for (const kind of KINDS) {
    if (kind.startsWith("rb:") && !remote && kind !== "rb:origin") continue;
    for (const s of ins) { if (kind !== "commit" && kind !== "ref" && /^[0-9a-f]{5,}/i.test(s) && s !== "0".repeat(40) && s !== idOf("c1")) continue; if (kind === "commit" && !extra && !/^[0-9a-f]*$/i.test(s)) continue; const d = { st, kind, s }; ctx.begin(d); await one(ctx, A, dir, d); }
    for (const pre of PRES()) for (const depth of kind === "commit" || kind === "ref" ? [undefined, 1, 2] : [undefined]) { const d = { st, kind, pre, depth }; ctx.begin(d); await suggest(ctx, A, dir, d); }
    ctx.distinct(JSON.stringify(st) + kind); ctx.checkTime();
  }
}
export async function run(ctx) {
  const A = await ctx.load("git/src/index.js"); let n = 0;
  for (const st of states(ctx.quick)) { if (!ctx.next()) continue; if (n < 2) ctx.sample(st); await inState(ctx, st, async (dir) => { if (n++ % 8 === 0) { gitAgrees(dir, st); ctx.outcome("state compared with git"); } await all(ctx, A, dir, st, n % 8 === 1); }); }
  if (ctx.shard === 0) { const dir = join(ctx.scratch, "plain"); mkdirSync(dir, { recursive: true }); for (const kind of KINDS) { for (const s of ["main", "0".repeat(40), "abcd"]) { const r = await make(A, kind, dir).parse(s); ctx.exec(); ctx.outcome("no repository"); if (r.success) ctx.violation(`norepo ${kind} ${s}`, `${kind} accepts ${s} outside a repository`, { norepo: 1 }, 5); } for await (const x of make(A, kind, dir).suggest("")) ctx.violation(`norepo ${kind}`, `${kind} suggests ${x.text} outside a repository`, { norepo: 1 }, 5); } }
}
export async function replay(ctx, d) {
  const A = await ctx.load("git/src/index.js"); if (d.norepo) return; store(join(ctx.scratch, "git-stores"));
  await inState(ctx, d.st, async (dir) => { if (d.all) await all(ctx, A, dir, d.st, true); else if (d.pre !== undefined) await suggest(ctx, A, dir, d); else await one(ctx, A, dir, d); });
}

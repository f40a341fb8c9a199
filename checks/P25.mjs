// P25: the generated completion scripts, run in real bash, zsh and fish.
import { spawnSync } from "node:child_process";
import { mkdirSync, writeFileSync, readFileSync, rmSync, readdirSync, existsSync, symlinkSync } from "node:fs";
import { join } from "node:path";
import { api } from "../lib/prog.mjs";
export const meta = {
  rule: "For every suggestion text, description and typed word up to a length bound over the characters shells treat specially: with the generated script loaded in a real bash, zsh and fish, the program is called with exactly the configured arguments and the typed words, the shell offers exactly the suggestions the program printed (tabs, newlines and NULs as spaces) with their descriptions, file directives offer exactly the matching entries of a directory, and nothing is executed. Program names that are not plain identifiers are refused. The encodings for all five shells split back into the suggestions.",
  assumptions: ["the program prints each chunk with a newline, as run() does", "words reach the program as the shell stores them (bash and zsh: as typed; fish: unquoted except the current one)", "no suggestion is empty or starts with the directive marker __FILE__:", "the shell's own fallbacks when nothing matches (zsh offers all files) are not judged", "pwsh and nu are not installed: only their encodings are judged", "words are not split at bash's COMP_WORDBREAKS"],
  quickLimitS: 500, thoroughLimitS: 3200,
};
const clean = (s) => s.replace(/[\t\n\r\0]/g, " ");
const oct = (s) => "$'" + [...Buffer.from(s)].map((b) => (b >= 48 && b <= 57 || b >= 65 && b <= 90 || b >= 97 && b <= 122) ? String.fromCharCode(b) : "\\" + b.toString(8).padStart(3, "0")).join("") + "'";
const fq = (s) => s === "" ? "''" : [...s].map((c) => /[A-Za-z0-9]/.test(c) ? c : "\\u" + c.codePointAt(0).toString(16).padStart(4, "0")).join("");
const esc = (s) => s.replace(/[^A-Za-z0-9_./-]/g, "\\$&");
const TREE = ["a.txt", "ab.md", "noext", "sub/x.txt", "sub/y.md", "sub/.hid", "sub/deep/z.txt", "sp ace.txt", ".hidden", ".hdir/in.txt", "q'uote.txt", "d$(touch PWN).txt", "st*r.txt", "b;c.md", "[x].txt", "é.txt", "a.tar.gz", "w.tarxgz", "p.c++", "p.cc", "p.c", "r.[x]", "r.x", "u.t?", "u.tx", "p:q/in.txt", "5%3A/in.md", "s`touch PWN`/f.txt"];
function plant(dir) { for (const f of TREE) { mkdirSync(join(dir, f, ".."), { recursive: true }); writeFileSync(join(dir, f), ""); } }
const snapshot = (dir) => readdirSync(dir, { recursive: true }).sort().join("\n");
// chunks as run() prints them
export const printed = (A, shell, sugg) => [...A.completion[shell].encodeSuggestions(sugg)].map((c) => c + "\n").join("");
// a case: {out, words, cur} ; returns [{args, got:[[text,desc]…]}]
export function runBatch(A, shell, name, args, cases, dir) {
  const root = join(dir, "w"), log = join(dir, "log"), res = join(dir, "res"), script = join(dir, "comp." + shell); rmSync(root, { recursive: true, force: true }); mkdirSync(root, { recursive: true }); plant(root); writeFileSync(log, ""); writeFileSync(res, "");
  writeFileSync(script, A.completion[shell].generateScript(name, args)); const before = snapshot(root), fn = name.replace(/[^a-zA-Z0-9]/g, "_"); let src, r;
  const env = { PATH: process.env.PATH, HOME: root, TERM: "dumb", LC_ALL: "C.UTF-8", XDG_CONFIG_HOME: join(dir, "cfg"), XDG_DATA_HOME: join(dir, "data") };
  if (shell === "bash") {
    src = `source ${oct(script)}\ncd ${oct(root)}\n${name}() { printf '%s\\0' "$#" "$@" >>${oct(log)}; printf '%s' "$OUT"; }\n` + cases.map((c) => `OUT=${oct(c.out)}; COMP_WORDS=(${[name, ...c.words, c.cur].map(oct).join(" ")}); COMP_CWORD=${c.words.length + 1}; _${name}; printf '%s\\0' "\${#COMPREPLY[@]}" "\${COMPREPLY[@]}" >>${oct(res)}; printf '%s\\0' END >>${oct(log)}\n`).join("");
    writeFileSync(join(dir, "run.bash"), src); r = spawnSync("bash", ["--norc", "--noprofile", join(dir, "run.bash")], { env, encoding: "utf8", timeout: 120000 });
  } else if (shell === "fish") {
    src = `source ${fq(script)}\ncd ${fq(root)}\nfunction ${name}\n printf '%s\\0' (count $argv) $argv >>${fq(log)}\n printf '%s' $OUT\nend\n` + cases.map((c) => `set -g OUT ${fq(c.out)}\nset -l r (complete -C (string join -- ' ' ${name} ${c.words.map((w) => `(string escape -- ${fq(w)})`).join(" ")} ${fq(c.cur)} | string collect))\nprintf '%s\\0' (count $r) $r >>${fq(res)}\nprintf '%s\\0' END >>${fq(log)}\n`).join("");
    writeFileSync(join(dir, "run.fish"), src); r = spawnSync("fish", ["--no-config", join(dir, "run.fish")], { env, encoding: "utf8", timeout: 120000 });
  } else {
    writeFileSync(join(dir, "init.zsh"), `PS1=\nCOLUMNS=4000\nautoload -Uz compinit; compinit -u -D\nzstyle ':completion:*' list-separator '%%SEP%%'\nsource ${oct(script)}\ncd ${oct(root)}\n${name}() { printf '%s\\0' "$#" "$@" >>${oct(log)}; print -rn -- "$OUT" }
compadd() {
  if [[ \${@[1,(i)(-|--)]} == *-(O|A|D)\\ * ]]; then builtin compadd "$@"; return $?; fi
  local -a __hits __dscr; local __i=\${@[(i)-d]}
  if (( __i <= $# )); then local __n=\${@[__i+1]}; if [[ $__n == \\(* ]]; then eval "__dscr=$__n"; else __dscr=("\${(@P)__n}"); fi; fi
  builtin compadd -O __hits -D __dscr "$@"
  local k; for (( k=1; k<=$#__hits; k++ )); do printf 'H\\0%s\\0%s\\0' "$__hits[k]" "$__dscr[k]" >>${oct(res)}; done
  builtin compadd "$@"
}
zle -C capture complete-word _main_complete
runall() { local OUT
${cases.map((c) => `OUT=${oct(c.out)}; BUFFER=${oct([name, ...c.words.map(esc), esc(c.cur)].join(" "))}; CURSOR=$#BUFFER; zle capture; printf 'E\\0' >>${oct(res)}; printf '%s\\0' END >>${oct(log)}`).join("\n")}
BUFFER=; print DO''NE }
zle -N runall; bindkey '^X^X' runall\n`);
    writeFileSync(join(dir, "drive.zsh"), `zmodload zsh/zpty\nzpty child env TERM=dumb ZDOTDIR=/nonexistent zsh -fi\nzpty -w child 'source '${oct(oct(join(dir, "init.zsh")))}'; print READ''Y'\nlocal c\nwhile zpty -r child c; do [[ $c == *READY* ]] && break; done\nzpty -w -n child $'\\x18\\x18'\nwhile zpty -r child c; do [[ $c == *DONE* ]] && break; done\nzpty -d child\n`);
    r = spawnSync("zsh", ["-f", join(dir, "drive.zsh")], { env, encoding: "utf8", timeout: 180000 });
  }
  if (snapshot(root) !== before || existsSync(join(dir, "PWN"))) return { bad: `something was executed: ${JSON.stringify(snapshot(root).split("\n").filter((x) => !before.split("\n").includes(x)))}` };
  const L = readFileSync(log, "utf8").split("\0"), R = readFileSync(res, "utf8").split("\0"), outs = []; let i = 0, j = 0;
  for (const c of cases) {
    const calls = []; while (i < L.length && L[i] !== "END") { const n = Number(L[i]); calls.push(L.slice(i + 1, i + 1 + n)); i += 1 + n; } i++;
    let got = [];
    if (shell === "zsh") { while (j < R.length - 1 && R[j] === "H") { got.push([R[j + 1], R[j + 2].replace("%%SEP%%", "%SEP%")]); j += 3; } if (R[j] !== "E") return { bad: `the shell stopped at case ${JSON.stringify(c)}: ${r.stderr} ${JSON.stringify(R.slice(j, j + 3))}` }; j++; }
    else { if (j >= R.length - 1) return { bad: `the shell stopped at case ${JSON.stringify(c)}: ${r.stderr?.slice(0, 300)}` }; const n = Number(R[j]); got = R.slice(j + 1, j + 1 + n).map((x) => shell === "fish" ? x.split("\t") : [x, undefined]); j += 1 + n; }
    outs.push({ calls, got });
  }
  return { outs, stderr: r.stderr };
}
const list = (xs) => JSON.stringify(xs.slice(0, 8));
function compareLit(shell, c, o, args) {
  const words = shell === "zsh" ? [c.words.filter((w) => w !== ""), c.words.filter((w) => w !== "").map(esc)] : [c.words], cur = shell === "zsh" ? [c.cur, esc(c.cur)] : [c.cur];
  if (!o.calls.length) return "the program was not called";
  for (const call of o.calls) if (!words.some((w) => cur.some((k) => JSON.stringify([...args, ...w, k]) === JSON.stringify(call)))) return `the program was called with ${JSON.stringify(call)}, expected ${JSON.stringify([...args, ...words[0], cur[0]])}`;
  if (!c.sugg) return null;
  const want = c.sugg.map((s) => [clean(s.text), clean(s.d ?? "")]);
  const got = new Map(); for (const [t, d] of o.got) { const k = t; if (!got.has(k) || d) got.set(k, d); }
  for (const [t, d] of want) { if (!got.has(t)) return `${JSON.stringify(t)} is not offered: ${list(o.got)}`; if (shell === "fish" && (got.get(t) ?? "") !== d) return `${JSON.stringify(t)} is described as ${JSON.stringify(got.get(t))}, expected ${JSON.stringify(d)}`; if (shell === "zsh" && d.trim() && !(got.get(t) ?? "").replace(/\s+$/, "").endsWith("%SEP% " + d.replace(/\s+$/, ""))) return `${JSON.stringify(t)} is described as ${JSON.stringify(got.get(t))}, expected ${JSON.stringify(d)}`; }
  const ok = new Set(want.map((w) => w[0])); for (const [t] of o.got) if (!ok.has(t)) return `${JSON.stringify(t)} is offered though the program did not suggest it`;
  if (shell === "bash" && o.got.length !== want.length) return `${o.got.length} candidates for ${want.length} suggestions`;
  return null;
}
// ---- file directives
function filesWanted(f, cur) {
  let base = cur; const p = f.pattern; if (p) { const typed = cur.startsWith(p) && cur !== p; if (!typed) base = p; }
  const dir = base.includes("/") ? base.slice(0, base.lastIndexOf("/") + 1) : "", pre = base.slice(dir.length), real = dir.replace(/^~\//, ""), all = new Map();
  for (const t of TREE) { if (!t.startsWith(real)) continue; const rest = t.slice(real.length), k = rest.indexOf("/"), n = k < 0 ? rest : rest.slice(0, k); all.set(n, k >= 0); }
  const hiddenOk = f.includeHidden || pre.startsWith(".") || real.split("/").some((s) => s.startsWith("."));
  const exts = f.type === "directory" ? [] : (f.extensions ?? []).map((e) => e.replace(/^\./, ""));
  return [...all].filter(([n, d]) => n.startsWith(pre) && (hiddenOk || !n.startsWith(".")) && (d || f.type !== "directory") && (d || !exts.length || exts.some((e) => n.endsWith("." + e)))).map(([n, d]) => dir + n + (d ? "/" : "")).sort();
}
const FILES = (() => { const out = []; for (const type of ["file", "directory", "any"]) for (const extensions of [undefined, [".txt"], ["txt", ".md"], ["tar.gz"], [".c++"], ["[x]", "t?"]]) for (const includeHidden of [false, true]) { for (const cur of ["", "a", "s", "sub/", "sub/x", "sub/deep/", ".", ".h", ".hdir/", "zzz", "sp", "q", "d", "st", "[", "b", "p"]) out.push([{ kind: "file", type, extensions, includeHidden }, cur]); for (const [pattern, cur] of [["sub/", ""], ["sub/", "sub/x"], ["sub/", "sub/deep/"], ["p:q/", ""], ["5%3A/", ""], ["sub/de", ""]]) out.push([{ kind: "file", type, extensions, includeHidden, pattern }, cur]); for (const cur of ["~/", "~/s", "~/sub/"]) out.push([{ kind: "file", type, extensions, includeHidden }, cur, "tilde"]); } return out; })();
function compareFiles(shell, f, cur, o) {
  if (shell === "fish" && cur === ".") return null; const want = filesWanted(f, cur), got = [...new Set(o.got.map((g) => shell === "zsh" ? g[0].replace(/\\(.)/g, "$1") : g[0]))].sort();
  if (shell === "zsh") { if (!want.length) return null; const b = (s) => s.replace(/\/$/, "").replace(/^.*\//, ""), w = want.map(b).sort(), g = [...new Set(got.map(b))].sort(); return JSON.stringify(w) === JSON.stringify(g) ? null : `offers ${JSON.stringify(g)}, expected ${JSON.stringify(w)}`; }
  return JSON.stringify(want) === JSON.stringify(got) ? null : `offers ${JSON.stringify(got)}, expected ${JSON.stringify(want)}`;
}
const SP = [" ", "'", '"', "\\", "$", "`", ";", "&", "|", "*", "?", "~", "#", "(", ")", "<", ">", "!", "{", "}", "[", "]", ":", "-", "=", "%", "\t", "\n", "^", ",", "@", "+", "x"], PWN = ["$(touch PWN)", "`touch PWN`", ";touch PWN", "';touch PWN;'", '";touch PWN;"', "\ntouch PWN\n", "|touch PWN", "&touch PWN&", "${IFS:=$(touch PWN)}", "a[$(touch PWN)]", "=(touch PWN)", "<(touch PWN)", "(touch PWN)", "\\$(touch PWN)", "*(e:touch PWN:)", "%(touch PWN)", "é漢", "-n", "-e", "--", "-", "--opt=val", "a:b:c", "C:\\dir", "x\\:y", "%d", "%s", "%%", "\\n", "\\x41", "$HOME", "~root", "**", "{a,b}", "!!", "x y  z", " lead", "trail ", "\r", "a\0b"];
export async function setup(ctx) { return { completion: await ctx.load("core/src/completion.js"), ...await api(ctx) }; }
const textsOf = (n) => { const out = []; for (const a of SP) { out.push(a, "x" + a, a + "x", "x" + a + "x"); if (n > 1) for (const b of SP) { out.push(a + b, "x" + a + b + "x"); if (n > 2) for (const c of SP) out.push(a + b + c); } } return [...out, ...PWN, ...PWN.map((p) => "x" + p)]; };
const uniq = (xs) => [...new Map(xs.map((s) => [clean(s.text).trim() === "" ? null : clean(s.text), s])).entries()].filter(([k]) => k !== null).map(([, v]) => v);
export async function run(ctx) {
  const A = await setup(ctx), Q = ctx.quick, SH = ["bash", "zsh", "fish"]; let n = 0, nb = 0; ctx.bound("special characters", SP.length); ctx.bound("text length", Q ? 2 : 3);
  const T = textsOf(Q ? 2 : 3).filter((t) => !t.startsWith("__FILE__:"));
  const go = (shell, cases, cmp, label, args = ["completion", shell], name = "prog") => {
    if (!ctx.next()) return; const d = { shell, cases, args, name, label }; ctx.begin({ shell, label }); ctx.state(cases.length); ctx.transition(cases.length); ctx.exec(cases.length); ctx.outcome(`${shell}: ${label}`, cases.length); if (++nb === 1) ctx.sample(cases[0]); ctx.checkTime();
    const one = (cs) => { const dir = join(ctx.scratch, "c" + n++); mkdirSync(dir, { recursive: true }); try { const r = runBatch(A, shell, name, args, cs, dir); return r.bad ? [[cs, r.bad]] : cs.map((c, i) => [[c], cmp(c, r.outs[i])]).filter((x) => x[1]); } finally { rmSync(dir, { recursive: true, force: true }); } };
    for (const c of cases) ctx.distinct(shell + label + JSON.stringify(c.key ?? c).slice(0, 200));
    let bad = one(cases); if (bad.length && bad[0][0].length > 1) { let k = cases; while (k.length > 1) { const h = k.slice(0, k.length >> 1), r = one(h); if (r.length && r[0][0].length === h.length) { k = h; bad = r; } else if (r.length) { bad = r; break; } else { const r2 = one(k.slice(k.length >> 1)); if (!r2.length) break; k = k.slice(k.length >> 1); bad = r2; if (r2[0][0].length !== k.length) break; } } }
    for (const [cs, m] of bad.slice(0, 5)) ctx.violation(`${shell} ${label} ` + JSON.stringify(cs[0].key ?? { sugg: cs[0].sugg, words: cs[0].words, cur: cs[0].cur, file: cs[0].file }), `${shell}, ${label}, ${JSON.stringify(cs[0].sugg ?? cs[0].file ?? cs[0].words).slice(0, 160)} ${JSON.stringify(cs[0].cur)}: ${m}`, { ...d, cases: cs }, JSON.stringify(cs).length);
  };
  const mkLit = (shell, sugg, cur = "") => { const s = sugg.map((x) => ({ kind: "literal", text: x.text, ...(x.d === undefined ? {} : { description: [{ type: "text", text: x.d }] }) })); return { out: printed(A, shell, s), words: [], cur, sugg }; };
  const tail = (s) => s.replace(/\s+$/, "").replace(/^\s+/, "").replace(/\s+/g, " ");
  for (const shell of SH) {
    const lit = (c, o, a) => compareLit(shell, c, o, a ?? ["completion", shell]);
    // suggestion texts: alone, in groups, with descriptions
    const usable = uniq(T.map((text) => ({ text }))).filter((s) => shell !== "zsh" && shell !== "fish" || !/^[\s]|[\s]$/.test(clean(s.text)) || shell === "zsh");
    const dashed = (s) => s.text.startsWith("-");
    const groups = []; for (let i = 0; i < usable.length; i += 5) groups.push(usable.slice(i, i + 5));
    const cases = []; for (const g of groups) { if (shell === "fish") { const a = g.filter((s) => !dashed(s)), b = g.filter(dashed); if (a.length) cases.push(mkLit(shell, a)); if (b.length) cases.push(mkLit(shell, b, "-")); } else cases.push(mkLit(shell, g)); }
    for (let i = 0; i < cases.length; i += 25) go(shell, cases.slice(i, i + 25), lit, "suggestions");
    const singles = usable.filter((s, i) => s.text.length <= 3 || !Q).map((s) => mkLit(shell, [s], shell === "fish" && dashed(s) ? "-" : "")); for (let i = 0; i < singles.length; i += 60) go(shell, singles.slice(i, i + 60), lit, "single suggestion");
    if (shell !== "bash") { const ds = T.filter((t) => tail(t) === t && t.trim() !== "").map((d, i) => mkLit(shell, [{ text: "v1", d }, { text: "v2" }, { text: "v3", d: "plain" }])); for (let i = 0; i < ds.length; i += 60) go(shell, ds.slice(i, i + 60), lit, "descriptions"); }
    // typed words
    const ws = T.filter((t) => !/[\0\n\r]/.test(t) && !(shell !== "bash" && /[\t]/.test(t))), mk = (words, cur) => ({ out: "", words, cur });
    const typed = []; for (const w of ws) { typed.push(mk([w], "x"), mk(["a", w, "b"], "")); if (shell === "bash") typed.push(mk(["a"], w)); else if (shell === "zsh" && !/^[=~<>]/.test(w)) typed.push(mk(["a"], w)); }
    const wcmp = (c, o) => { const e = compareLit(shell, c, o, ["completion", shell]); return e; };
    for (let i = 0; i < typed.length; i += 80) go(shell, typed.slice(i, i + 80), wcmp, "typed words");
    // nothing runs, whatever is typed, with a file directive
    const dir = [...A.completion[shell].encodeSuggestions([{ kind: "file", type: "any", includeHidden: true }])].join("") + "\n", wild = [...PWN.filter((t) => !/[\0\n\r]/.test(t)), "~$(touch PWN)/x", "~`touch PWN`/", "~root/", "~+/x", "~;touch PWN/x", "$(touch PWN)/*", "sub/$(touch PWN)"].map((cur) => ({ out: dir, words: ["a"], cur: shell === "fish" ? esc(cur) : cur, wild: true }));
    for (let i = 0; i < wild.length; i += 20) go(shell, wild.slice(i, i + 20), () => null, "typed path");
    // file directives
    const fs = FILES.filter(([f, cur, tilde]) => !(shell === "zsh" && (tilde || f.pattern || /[\["]|^\.h?$/.test(cur) && false))).map(([file, cur]) => ({ out: printed(A, shell, [{ ...file }]), words: [], cur, file, key: { file, cur } }));
    for (let i = 0; i < fs.length; i += 30) go(shell, fs.slice(i, i + 30), (c, o) => compareFiles(shell, c.file, c.cur, o), "file directives");
    // program names and script arguments
    for (const name of ["a", "_", "prog2", "my-prog", "my.prog", "A_b-c.d", "x--y", "p1.2.3"]) if (shell !== "fish" || name !== "_") go(shell, [mkLit(shell, [{ text: "one", d: "d" }, { text: "two" }])], lit, "program name " + name, ["completion", shell], name);
    for (const a of [...SP.filter((c) => c !== "\t" && c !== "\n"), ...PWN.filter((t) => !/[\0\n\r]/.test(t)), "a'b", "\\'", "\\\\", "it's", "'", "''", "\\", "x\\", "$x"]) go(shell, [mkLit(shell, [{ text: "one" }])], (c, o) => compareLit(shell, c, o, [a, "end"]), "script argument", [a, "end"]);
  }
  if (ctx.next()) encodings(ctx, A, T);
  if (ctx.next()) names(ctx, A);
  if (ctx.next()) await endToEnd(ctx, A);
}
function encodings(ctx, A, T) {
  for (const sh of ["bash", "zsh", "fish", "nu", "pwsh"]) for (const t of T) for (const d of [undefined, "desc", t]) {
    ctx.state(); ctx.transition(); ctx.exec(); ctx.outcome("encodings"); const s = (text, dd) => ({ kind: "literal", text, ...(dd === undefined ? {} : { description: [{ type: "text", text: dd }] }) }), f = { kind: "file", type: "file", extensions: [".a", "b"], includeHidden: true, pattern: t };
    const chunks = [...A.completion[sh].encodeSuggestions([s(t, d), s("second"), f])].join(sh === "zsh" ? "\n" : "").split("\n"); const sep = sh === "zsh" ? "\0" : "\t", cell = (l) => sh === "bash" ? [l, ""] : sh === "pwsh" ? [l.split(sep)[0], l.split(sep)[2]] : l.split(sep);
    const want = [[clean(t), sh === "bash" ? "" : clean(d ?? "").replace(/ +/g, " ").trim()], ["second", ""], ["__FILE__:file:a,b:" + clean(t).replace(/%/g, "%25").replace(/:/g, "%3A") + ":1", ""]];
    if (/[\t\n\r\0]/.test(t)) want.pop(), chunks.length = 2;
    const got = chunks.map((l) => { const [a, b] = cell(l); return [a, (b ?? "").replace(/ +/g, " ").trim()]; });
    if (JSON.stringify(got) !== JSON.stringify(want)) { ctx.violation(`enc ${sh} ${t} ${d}`, `${sh} encodes ${JSON.stringify(t)} (${JSON.stringify(d)}) as ${JSON.stringify(chunks)}`, { enc: sh }, t.length); return; }
  }
}
function names(ctx, A) {
  const C = ["a", "Z", "0", "_", "-", ".", " ", "/", "$", "`", ";", "\n", "(", "'", '"', "\\", "é", "\0", "*", "~", "&", "|", "<", "=", ":", "%", "\t"];
  for (const sh of ["bash", "zsh", "fish", "nu", "pwsh"]) { const all = [""]; for (const a of C) { all.push(a); for (const b of C) { all.push(a + b); for (const c of C) all.push(a + b + c); } } all.push("prog\n", "prog;x", "a\nb", "prog ");
    for (const nme of all) { ctx.state(); ctx.transition(); ctx.exec(); ctx.outcome("names"); const ok = nme !== "" && !/[^A-Za-z0-9_.-]/.test(nme) && !/^[-.]/.test(nme); let r = true; try { const s = A.completion[sh].generateScript(nme, []); if (!s.includes(nme)) r = null; } catch { r = false; } if (r !== ok) { ctx.violation(`name ${sh} ${JSON.stringify(nme)}`, `${sh}: the program name ${JSON.stringify(nme)} is ${r ? "accepted" : "refused"}`, { names: sh }, nme.length); return; } } }
}
// the output of the real runner is what the batches above feed to the shells
async function endToEnd(ctx, A) {
  const R = await ctx.load("run/src/run.js"), F = await ctx.load("core/src/facade.js");
  const parser = () => A.object({ c: A.option("-c", "--colour", A.vp.choice(["red", "blue", "a:b"]), { description: [{ type: "text", text: "Col: our" }] }), v: A.option("-v") });
  for (const sh of ["bash", "zsh", "fish", "nu", "pwsh"]) for (const words of [["-c", ""], [""], ["-"], ["-c", "r"], ["--colour", "a"]]) for (const mode of ["command", "option"]) {
    ctx.state(); ctx.transition(); ctx.exec(); ctx.outcome("end to end"); let out = "", code; class Exit extends Error {}
    try { R.run(parser(), { programName: "prog", args: mode === "command" ? ["completion", sh, ...words] : ["--completion", sh, ...words], completion: mode, stdout: (s) => { out += s + "\n"; }, stderr: (s) => { out += "ERR" + s; }, onExit: (c) => { code = c; throw new Exit(); } }); } catch (e) { if (!(e instanceof Exit)) throw e; }
    const own = A.suggestSync ? A.suggestSync(parser(), words) : [], mine = [...own].filter((s) => s.kind === "literal").map((s) => s.text);
    for (const t of mine) if (!out.includes(t)) ctx.violation(`e2e ${sh} ${words}`, `${sh} ${words}: ${t} is suggested by the parser but not printed: ${JSON.stringify(out)}`, { e2e: 1 }, 5);
    if (code !== 0 || out.includes("ERR")) ctx.violation(`e2e ${sh} ${words} ${mode}`, `completion request failed: ${code} ${out}`, { e2e: 1 }, 5);
  }
}
export async function replay(ctx, d) {
  const A = await setup(ctx); if (d.enc) return encodings(ctx, A, textsOf(2)); if (d.names) return names(ctx, A); if (d.e2e) return endToEnd(ctx, A);
  const dir = join(ctx.scratch, "r"); mkdirSync(dir, { recursive: true }); ctx.state(); ctx.transition(); ctx.exec(d.cases.length);
  for (const c of d.cases) { if (c.sugg) c.out = printed(A, d.shell, c.sugg.map((x) => ({ kind: "literal", text: x.text, ...(x.d === undefined ? {} : { description: [{ type: "text", text: x.d }] }) }))); else if (c.file) c.out = printed(A, d.shell, [c.file]); }
  const r = runBatch(A, d.shell, d.name, d.args, d.cases, dir); const m = r.bad ?? d.cases.map((c, i) => c.wild ? null : c.file ? compareFiles(d.shell, c.file, c.cur, r.outs[i]) : compareLit(d.shell, c, r.outs[i], d.args)).find(Boolean); if (m) ctx.violation(d.shell + d.label, `${d.shell}, ${d.label}: ${m}`, d, 1);
}

// P26: meta requests (help, version, completion) against the user's grammar.
import { api, show } from "../lib/prog.mjs";
export const meta = {
  rule: "For every configuration of the three meta features, every catalogue parser and every token list: the parser's own result wins when it accepts; otherwise the first token it leaves decides which meta request, if any, is served, and exactly one outcome (value, help, version, completion, error) happens, on the right stream with the right exit code, on every entry point.",
  assumptions: ["whether the parser accepts is asked of parse() (P01-P03 judge it)", "where the parser stops is computed by an independent walk over the catalogue's options, arguments and commands", "unspecified and accepted either way: a meta command name that the parser took as a positional or that follows consumed tokens; help after unknown words; a missing option value at the end"],
};
// configurations of one feature: undefined | command? option?
const N = {
  help: { plain: { c: ["help"], o: ["--help"] }, re: { c: ["assist", "h"], o: ["--assist", "-h"] } },
  version: { plain: { c: ["version"], o: ["--version"] }, re: { c: ["ver"], o: ["-V", "--ver"] } },
  completion: { plain: { c: ["completion"], o: ["--completion"] }, re: { c: ["comp"], o: ["--comp"] } },
};
const KINDS = ["off", "cmd", "opt", "both", "re", "hid"];
function feature(f, k) {
  if (k === "off") return { c: [], o: [] };
  const n = k === "re" || k === "recmd" || k === "reopt" ? N[f].re : N[f].plain;
  return { c: k === "opt" || k === "reopt" ? [] : n.c, o: k === "cmd" || k === "recmd" ? [] : n.o, re: n === N[f].re, hid: k === "hid" };
}
function option(f, x, onShow) {
  if (!x.c.length && !x.o.length) return undefined;
  const side = (ns) => x.re || x.hid ? { ...(x.re ? { names: ns } : {}), ...(x.hid ? { hidden: true } : {}) } : true;
  return { ...(x.c.length ? { command: side(x.c) } : {}), ...(x.o.length ? { option: side(x.o) } : {}), onShow, ...(f === "version" ? { value: "9.8.7" } : {}) };
}
// ---- the catalogue: opts name -> takes a value; args = how many positionals; cmds
const S = (A, as) => as ? A.asyncOf()(A.string({ metavar: "S" })) : A.string({ metavar: "S" });
export const CAT = {
  none: { opts: {}, args: 0, make: (A) => A.object({}) },
  flag: { opts: { "-v": 0 }, args: 0, make: (A, as) => as ? A.object({ v: A.optional(A.flag("-v")), z: A.optional(A.option("--zz", S(A, as))) }) : A.object({ v: A.optional(A.flag("-v")) }), asOpts: { "-v": 0, "--zz": 1 } },
  value: { opts: { "--name": 1 }, args: 0, make: (A, as) => A.object({ n: A.optional(A.option("--name", S(A, as))) }) },
  must: { opts: { "--name": 1 }, args: 0, make: (A, as) => A.object({ n: A.option("--name", S(A, as)) }) },
  bare: { opts: { "--name": 1 }, args: 0, make: (A, as) => A.option("--name", S(A, as)) },
  arg: { opts: {}, args: 1, make: (A, as) => A.object({ a: A.argument(S(A, as)) }) },
  optarg: { opts: { "-v": 0 }, args: 1, make: (A, as) => A.object({ v: A.optional(A.flag("-v")), a: A.optional(A.argument(S(A, as))) }) },
  many: { opts: {}, args: Infinity, make: (A, as) => A.object({ a: A.multiple(A.argument(S(A, as))) }) },
  num: { opts: { "--name": 1 }, args: 0, make: (A, as) => A.object({ n: A.optional(A.option("--name", as ? A.asyncOf()(A.integer()) : A.integer())) }) },
  cmds: { opts: {}, args: 0, cmds: { build: { opts: { "-v": 0 }, args: 0 }, x: { opts: {}, args: 1 } }, make: (A, as) => A.or(A.command("build", A.object({ v: A.optional(A.flag("-v")) })), A.command("x", A.object({ a: A.argument(S(A, as)) }))) },
  nested: { opts: {}, args: 0, cmds: { build: { opts: { "-v": 0 }, args: 0, cmds: { x: { opts: { "--name": 1 }, args: 0 } } } }, make: (A, as) => A.command("build", A.merge(A.object({ v: A.optional(A.flag("-v")) }), A.object({ c: A.command("x", A.object({ n: A.optional(A.option("--name", S(A, as))) })) }))) },
  own: { opts: {}, args: 0, cmds: { help: { opts: {}, args: 0 }, build: { opts: { "--help": 0 }, args: 0 } }, make: (A, as) => A.or(A.command("help", A.object({ k: A.constant("own help") })), A.command("build", A.object({ h: A.optional(A.flag("--help")), ...(as ? { n: A.optional(A.option("--qq", S(A, as))) } : {}) }))) },
  ownopt: { opts: { "--help": 0, "--version": 1, "-V": 0 }, args: 0, make: (A, as) => A.object({ h: A.optional(A.flag("--help")), v: A.optional(A.option("--version", S(A, as))), V: A.optional(A.flag("-V")) }) },
};
const optlike = (t) => /^--?[a-z0-9-]+$/i.test(t);
// where does the parser stop?
function walk(P, toks, as) {
  let p = P, i = 0, term = false, args = 0, used = new Set(), sure = true, opts = { ...(as && P.asOpts || P.opts) }; const path = [];
  let cmdWord = false;
  while (i < toks.length) {
    const t = toks[i];
    if (!term && t in opts && !used.has(t)) { used.add(t); if (opts[t]) { if (i + 1 >= toks.length || toks[i + 1] === "--") { sure = false; break; } i += 2; } else i++; continue; }
    if (!term && used.has(t)) { sure = false; break; }
    if (!term && p.cmds && !p.chosen && Object.hasOwn(p.cmds, t)) { const sub = p.cmds[t]; path.push(t); opts = { ...opts, ...sub.opts }; p = sub; args = 0; i++; continue; }
    if (!term && p.cmds && path.length && P.cmds && Object.hasOwn(P.cmds, t)) { sure = false; }
    if (args < p.args && (term || !optlike(t)) && !(t === "--" && !term)) { args++; i++; cmdWord = true; continue; }
    if (!term && t === "--") { if (Object.keys(opts).length || p.args) { term = true; i++; continue; } }
    break;
  }
  if (P.cmds && path.length && i < toks.length && Object.hasOwn(P.cmds, toks[i])) sure = false;
  return { i, term, path, sure, took: cmdWord };
}
const SHELLS = ["bash", "zsh", "fish", "nu", "pwsh"];
// the set of acceptable outcomes; each {k:"help"|"version"|"completion"|"error", ...}
export function expected(P, cfg, toks, as) {
  const w = walk(P, toks, as), rem = toks.slice(w.i), { help: H, version: V, completion: C } = cfg, any = (why) => ({ any: true, why });
  if (!w.sure) return any("where the parser stops");
  const cmdName = (t) => H.c.includes(t) ? "help" : V.c.includes(t) ? "version" : C.c.includes(t) ? "completion" : undefined;
  if (toks.some((t, j) => j < w.i && w.took && cmdName(t))) return any("meta command taken as a positional");
  if (!rem.length) return { set: [{ k: "error" }] };
  const cut = w.term ? 0 : rem.includes("--") ? rem.indexOf("--") : rem.length, view = rem.slice(0, cut);
  const first = cmdName(rem[0]), comp = (shell, args, src) => !shell ? { k: "error", why: "shell" } : SHELLS.includes(shell) ? { k: "completion", shell, args, src, path: w.path } : { k: "error", why: "shell" };
  const opt = (t) => H.o.includes(t) ? "help" : V.o.includes(t) ? "version" : C.o.some((n) => t === n || t.startsWith(n + "=")) ? "completion" : undefined;
  if (w.i === 0 && first === "completion") return H.o.includes(rem[1]) ? { set: [{ k: "help", of: "completion" }] } : { set: [comp(rem[1], rem.slice(2), "command")] };
  if (w.i > 0 && first) return any("meta command after consumed tokens");
  let hv = -1, c = -1; for (let j = 0; j < view.length; j++) { const k = opt(view[j]); if (k === "completion") { c = j; break; } if (k) hv = j; }
  if (w.i === 0 && first === "version") {
    if (rem.length === 1) return { set: [{ k: "version" }] };
    if (H.o.includes(rem[1]) && cut > 1) return { set: [{ k: "help", of: "version" }] };
    if (V.o.includes(rem[1]) && rem.length === 2) return { set: [{ k: "version" }] };
    return hv >= 0 || c >= 0 ? any("version command with more meta options") : { set: [{ k: "error" }] };
  }
  if (w.i === 0 && first === "help") {
    if (hv >= 0 || c >= 0) return any("help command with meta options");
    if (rem.length === 1) return { set: [{ k: "help", top: true }] };
    if (rem.length === 2 && P.cmds && Object.hasOwn(P.cmds, rem[1]) && !cmdName(rem[1])) return { set: [{ k: "help", cmd: [rem[1]] }] };
    if (rem.length === 2 && cmdName(rem[1]) && !(P.cmds && Object.hasOwn(P.cmds, rem[1]))) return { set: [{ k: "help", of: cmdName(rem[1]) }] };
    return { set: [{ k: "help" }, { k: "error" }] };
  }
  const junk = (upto) => view.slice(0, upto).some((t) => !opt(t));
  if (hv >= 0) { const k = opt(view[hv]); return { set: [k === "help" ? { k, top: !w.path.length && hv === 0, cmd: hv === 0 && w.path.length ? w.path : undefined } : { k }, ...(junk(hv) ? [{ k: "error" }] : [])] }; }
  if (c >= 0) {
    const t = view[c], eq = t.indexOf("="), r = eq > 0 && !C.o.includes(t) ? comp(t.slice(eq + 1), rem.slice(c + 1), "option") : comp(view[c + 1], rem.slice(c + 2), "option");
    return { set: [r, ...(junk(c) ? [{ k: "error" }] : [])] };
  }
  return { set: [{ k: "error" }] };
}
export function observe(A, parser, cfg, toks, entry, as) {
  const log = [], out = [], err = [], on = (k) => (code) => { log.push([k, code]); return { on: k }; };
  const o = { help: option("help", cfg.help, on("help")), version: option("version", cfg.version, on("version")), completion: option("completion", cfg.completion, on("completion")), onError: on("error"), stdout: (t) => out.push(t), stderr: (t) => err.push(t) };
  for (const k of ["help", "version", "completion"]) if (!o[k]) delete o[k];
  const ctx = () => entry.includes("2") ? [{ id: Symbol("two"), phase: "two-pass", getAnnotations: (r) => r === undefined ? {} : {}, getInternalAnnotations: () => undefined }] : [{ id: Symbol("one"), phase: "single-pass", getAnnotations: () => ({}) }];
  const fin = (v, t) => ({ v, thrown: t, log, out, err });
  let r;
  try {
    r = entry === "runParser" ? A.runParser(parser, "prog", toks, o) : entry === "runParserSync" ? A.runParserSync(parser, "prog", toks, o) : entry === "runParserAsync" ? A.runParserAsync(parser, "prog", toks, o)
      : entry.startsWith("runWithSync") ? A.runWithSync(parser, "prog", ctx(), { ...o, args: toks }) : A.runWith(parser, "prog", ctx(), { ...o, args: toks });
  } catch (e) { return fin(undefined, e); }
  return r instanceof Promise ? r.then((v) => fin(v), (e) => fin(undefined, e)) : fin(r);
}
export function judge(A, P, cfg, toks, as, accepted, exp, g) {
  if (g.thrown) return `throws ${g.thrown.stack?.split("\n").slice(0, 3).join(" ")}`;
  if (accepted) { if (g.log.length || g.out.length || g.err.length) return `the parser accepts, but ${JSON.stringify(g.log)} happened`; return show(g.v) === show(accepted.value) ? null : `the value is ${show(g.v)}, the parser gives ${show(accepted.value)}`; }
  if (g.log.length !== 1) return `handlers called: ${JSON.stringify(g.log)}, expected exactly one`;
  const [k, code] = g.log[0]; if (g.v?.on !== k) return `the result is not what the ${k} handler returned`;
  if (k === "error") { if (code !== 1) return `exit code ${code} for an error`; if (g.out.length) return `an error writes ${JSON.stringify(g.out[0]).slice(0, 80)} to standard output`; if (!g.err.length) return "an error writes nothing to standard error"; }
  else { if (code !== 0) return `exit code ${code} for ${k}`; if (g.err.length) return `${k} writes to standard error: ${JSON.stringify(g.err[0]).slice(0, 120)}`; }
  if (k === "version" && (g.out.length !== 1 || g.out[0] !== "9.8.7")) return `version prints ${JSON.stringify(g.out)}`;
  if (k === "help" && (g.out.length !== 1 || !/^Usage: prog/m.test(g.out[0]))) return `help prints ${JSON.stringify(g.out).slice(0, 120)}`;
  if (k !== "error" && !cfg[k].c.length && !cfg[k].o.length) return `${k} is served though it is not configured`;
  if (exp.any) return null;
  const m = exp.set.find((e) => e.k === k); if (!m) return `${k} happened, expected ${exp.set.map((e) => e.k).join(" or ")}`;
  if (k === "error") { if (m.why === "shell" && exp.set.length === 1 && !/shell/i.test(g.err.join(""))) return `the error does not mention the shell: ${g.err.join("|").slice(0, 100)}`; return null; }
  if (k === "help" && exp.set.length === 1) {
    const t = g.out[0];
    if (m.of && !t.startsWith(`Usage: prog ${cfg[m.of].c[0]}`) && !new RegExp(`^Usage: prog (${cfg[m.of].c.join("|")})`, "m").test(t)) return `help for the ${m.of} command reads ${JSON.stringify(t.slice(0, 80))}`;
    if (m.cmd && !t.match(new RegExp(`^Usage: prog ${m.cmd.join(" ")}`, "m"))) return `help for ${m.cmd.join(" ")} reads ${JSON.stringify(t.slice(0, 80))}`;
    if (m.top) for (const f of ["help", "version", "completion"]) for (const names of [cfg[f].c, cfg[f].o]) if (names.length) {
      const seen = new RegExp(`(^|[\\s,(\\[|])${names[0].replace(/[-/+]/g, "\\$&")}($|[\\s,)\\]|=])`, "m").test(t);
      const shown = seen && t.split("\n").some((l, i, L) => (i < Math.max(1, L.indexOf("")) ? l : (/^  (\S.*?)(   |$)/.exec(l)?.[1] ?? "")).split(/[\s,()[\]|=]+/).includes(names[0]));
      if (cfg[f].hid && shown && P !== CAT.own && P.make !== CAT.own.make && !(P.cmds && Object.hasOwn(P.cmds, names[0])) && !(names[0] in P.opts)) return `the hidden ${names[0]} is shown on the help page`;
      if (!cfg[f].hid && !seen) return `${names[0]} is missing from the help page`;
    }
  }
  if (k === "completion" && exp.set.length === 1) {
    const sh = A.completionMod[m.shell];
    if (!m.args.length && !m.path.length) { const want = sh.generateScript("prog", [m.src === "command" ? cfg.completion.c[0] : cfg.completion.o[0], m.shell]); return g.out.join("") === want ? null : `the ${m.shell} script differs from generateScript("prog", …)`; }
    if (!as) {
      const args = [...m.path, ...m.args], own = A.suggest(P.parser, args), got = g.out.join(""), pre = args.at(-1);
      const roots = [...cfg.help.hid ? [] : cfg.help.o, ...cfg.version.hid ? [] : cfg.version.o];
      const lit = (s) => s.kind === "literal" ? s.text : "__FILE__"; const mine = new Set(own.map(lit));
      const texts = A.decode(m.shell, got), extra = texts.filter((t) => !mine.has(t));
      for (const t of mine) if (!texts.includes(t)) return `the completion of ${JSON.stringify(args)} misses ${JSON.stringify(t)}: ${JSON.stringify(texts)}`;
      for (const t of extra) if (!roots.includes(t) || !t.startsWith(pre)) return `the completion of ${JSON.stringify(args)} offers ${JSON.stringify(t)}`;
    }
  }
  return null;
}
const decode = (sh, raw) => sh === "zsh" ? raw.split("\0").filter((_, i) => i % 2 === 0).map((x) => x.replace(/^\n/, "")).filter((x) => x !== "") : raw.split("\n").map((l) => l.split("\t")[0]).filter((x) => x !== "").map((x) => x.startsWith("__FILE__") ? "__FILE__" : x);
export async function setup(ctx) { const A = { ...await api(ctx), completionMod: await ctx.load("core/src/completion.js") }; const { asyncOf } = await import("../lib/prog.mjs"); Object.assign(A, await ctx.load("core/src/facade.js"), { string: A.vp.string, integer: A.vp.integer, asyncOf: () => asyncOf(), suggest: A.suggest ?? A.suggestSync, decode }); return A; }
const ALPHA = ["help", "--help", "version", "--version", "completion", "--completion", "bash", "--", "-v", "--name", "build", "x", "--completion=zsh", "zz"], ALPHA_RE = ["assist", "-h", "ver", "-V", "comp", "--comp", "zsh", "--", "-v", "--name", "build", "x", "--comp=bash", "help", "--help", ""];
function* lists(al, max) { for (let n = 0; n <= max; n++) yield* (function* rec(pre) { if (pre.length === n) { yield pre; return; } for (const t of al) yield* rec([...pre, t]); })([]); }
const cfgOf = (h, v, c) => ({ help: feature("help", h), version: feature("version", v), completion: feature("completion", c) });
function* plan(quick) {
  const deep = [["both", "both", "both", ALPHA], ["re", "re", "re", ALPHA_RE], ["opt", "opt", "opt", ALPHA], ["cmd", "cmd", "cmd", ALPHA]], F = ["off", "cmd", "opt", "both", "re"];
  for (const [h, v, c, al] of deep) yield { k: [h, v, c], al, max: quick ? 3 : 4 };
  for (const [i, h] of F.entries()) for (const [j, v] of F.entries()) for (const [l, c] of F.entries()) if ((!quick || (i + j + l) % 5 === 0) && ![h, v, c].every((x) => x === h && x !== "off")) yield { k: [h, v, c], al: [...new Set([...ALPHA, ...[h, v, c].includes("re") ? ALPHA_RE : []])], max: quick ? 2 : 3 };
  for (const hid of [["hid", "both", "both"], ["both", "hid", "both"], ["both", "both", "hid"], ["hid", "hid", "hid"]]) yield { k: hid, al: ALPHA, max: 2 };
}
const SYNC = ["runParser", "runParserSync", "runWithSync1", "runWithSync2"], ASYNC = ["runParserAsync", "runParser", "runWith1", "runWith2"];
export async function run(ctx) {
  const A = await setup(ctx), made = {}; let acc = 0;
  for (const [n, P] of Object.entries(CAT)) made[n] = { s: { ...P, parser: P.make(A, false) }, a: { ...P, parser: P.make(A, true), as: true } };
  ctx.bound("catalogue parsers", Object.keys(CAT).length); ctx.bound("token list length", ctx.quick ? 3 : 4);
  for (const pl of plan(ctx.quick)) {
    const cfg = cfgOf(...pl.k); ctx.bound("largest alphabet", pl.al.length);
    for (const name of Object.keys(CAT)) {
      if (!ctx.next()) continue;
      ctx.checkTime(); let cnt = 0;
      for (const toks of lists(pl.al, pl.max)) {
        const { s, a } = made[name]; cnt++; ctx.state();
        const pr = A.parseSync ? A.parseSync(s.parser, toks) : A.parse(s.parser, toks), accepted = pr.success ? { value: pr.value } : undefined, exp = accepted ? undefined : expected(s, cfg, toks, false);
        
        for (const entry of toks.length < 2 || cnt % 23 === 0 ? SYNC : cnt % 2 ? ["runParser", "runWithSync2"] : ["runParser"]) {
          const d = { name, k: pl.k, toks, entry, as: false }; ctx.begin(d); ctx.transition(); ctx.exec();
          const g = observe(A, s.parser, cfg, toks, entry, false), bad = judge(A, s, cfg, toks, false, accepted, exp, g);
          if (bad) ctx.violation(JSON.stringify(d), `${entry}(${name}, ${JSON.stringify(toks)}) with help/version/completion = ${pl.k.join("/")}: ${bad}`, d, JSON.stringify(toks).length * 100 + JSON.stringify(d).length);
          ctx.outcome(accepted ? "value" : exp.any ? "unspecified, exclusive" : exp.set.map((e) => e.k).join("|"));
          if (accepted) acc++;
        }
        if (toks.length < 2 || toks.length === 2 && (!ctx.quick || cnt % 3 === 0) || toks.length === 3 && !ctx.quick && cnt % 5 === 0) {
          const pa = name === "none" ? undefined : await A.parseAsync(a.parser, toks), aacc = pa?.success ? { value: pa.value } : undefined, aexp = !pa || aacc ? undefined : expected(a, cfg, toks, true);
          if (pa) for (const entry of ASYNC) {
            const d = { name, k: pl.k, toks, entry, as: true }; ctx.begin(d); ctx.transition(); ctx.exec();
            const g = await observe(A, a.parser, cfg, toks, entry, true), bad = judge(A, a, cfg, toks, true, aacc, aexp, g);
            if (bad) ctx.violation(JSON.stringify(d), `${entry}(async ${name}, ${JSON.stringify(toks)}) with help/version/completion = ${pl.k.join("/")}: ${bad}`, d, JSON.stringify(toks).length * 100 + JSON.stringify(d).length);
          }
        }
      }
      ctx.distinct(pl.k.join() + name);
      if (name === "own") ctx.sample({ name, k: pl.k });
    }
  }
}
export async function replay(ctx, d) {
  const A = await setup(ctx), P = CAT[d.name], parser = P.make(A, d.as), x = { ...P, parser }, cfg = cfgOf(...d.k);
  const pr = await (d.as ? A.parseAsync(parser, d.toks) : A.parse(parser, d.toks)), acc = pr.success ? { value: pr.value } : undefined, g = await observe(A, parser, cfg, d.toks, d.entry, d.as);
  const bad = judge(A, x, cfg, d.toks, d.as, acc, acc ? undefined : expected(x, cfg, d.toks, d.as), g); ctx.exec();
  console.log(JSON.stringify({ log: g.log, out: g.out.map((o) => o.slice(0, 200)), err: g.err.map((o) => o.slice(0, 200)) }));
  if (bad) ctx.violation(JSON.stringify(d), `${d.entry}(${d.name}, ${JSON.stringify(d.toks)}): ${bad}`, d);
}

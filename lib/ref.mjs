// Independent reference interpreter for program ASTs (see prog.mjs).
// parse(node, st, toks, term) -> {n, st, toks, term, bad}; n = tokens consumed
// (a stripped bundle letter counts), bad = the node recognised the next token
// as its own but the use is wrong.
import { mapFn } from "./prog.mjs";
const NO = { n: 0, bad: false }, BAD = { n: 0, bad: true };
// sup: some leaf received a value (a lone `--` is consumed but supplies nothing)
const ok = (st, toks, term, n = 1, sup = true) => ({ n, st, toks, term, bad: false, sup });
export const values = {
  str: (s) => ({ ok: true, v: s }),
  int: (s) => /^-?(0|[1-9][0-9]*)$/.test(s) && Number.isSafeInteger(+s) && s !== "-0" ? { ok: true, v: +s } : { ok: false },
  num: (s) => /^[0-9]$/.test(s) ? { ok: true, v: +s } : { ok: false },
  ab: (s) => s === "a" || s === "b" ? { ok: true, v: s } : { ok: false },
  abc: (s) => ["alpha", "beta", "bar"].includes(s) ? { ok: true, v: s } : { ok: false },
};
export function prio(p) {
  switch (p[0]) {
    case "cmd": return 15;
    case "flag": case "bool": case "neg": case "opt": return 10;
    case "arg": return 5;
    case "const": case "fail": return 0;
    case "pass": return -10;
    case "optl": case "def": case "mult": case "map": case "ne": return prio(p[1]);
    case "group": return prio(p[2]);
    case "obj": return Math.max(-Infinity, ...Object.values(p[1]).map(prio));
    case "cond": return Math.max(prio(p[1]), ...Object.values(p[2]).map(prio), ...(p[3] ? [prio(p[3])] : []));
    case "tup": case "merge": case "concat": case "or": case "long": return Math.max(-Infinity, ...p[1].map(prio));
    case "seq": { let m = 0; for (const q of p[1]) { m = Math.max(m, prio(q)); if (!canSkip(q, init(q))) break; } return m; }
  }
}
export function init(p) {
  switch (p[0]) {
    case "obj": return Object.fromEntries(Object.entries(p[1]).map(([k, q]) => [k, init(q)]));
    case "tup": case "merge": case "concat": return p[1].map(init);
    case "seq": return { at: 0, st: p[1].map(init) };
    case "mult": case "pass": return [];
    case "group": return init(p[2]);
    case "map": case "ne": return { used: false, st: init(p[1]) };
    default: return undefined;
  }
}
function names(p) { return p[0] === "neg" ? [...p[1], ...p[2]] : p[1]; }
export function parse(p, st, toks, term) {
  const t = toks[0], rest = toks.slice(1);
  switch (p[0]) {
    case "flag": case "bool": case "neg": case "opt": {
      if (term || t === undefined) return NO;
      if (t === "--") return ok(st, rest, true, 1, false);
      const valued = p[0] === "opt";
      const val = (name) => p[0] === "neg" ? p[1].includes(name) : true;
      for (const name of names(p)) {
        if (t === name) {
          if (st !== undefined) return BAD;
          if (!valued) return ok({ v: val(name) }, rest, term);
          if (toks.length < 2) return BAD;
          return ok({ raw: toks[1] }, toks.slice(2), term, 2);
        }
        const sep = name.startsWith("/") ? ":" : "=";
        const joinable = name.startsWith("--") || name.startsWith("/") || (name.startsWith("-") && name.length > 2);
        if (joinable && t.startsWith(name + sep)) {
          if (!valued || st !== undefined) return BAD;
          return ok({ raw: t.slice(name.length + 1) }, rest, term);
        }
      }
      if (!valued) for (const name of names(p)) {
        if (/^-[^-]$/.test(name) && t.startsWith(name) && t.length > 2 && /^[A-Za-z0-9?]+$/.test(t.slice(2))) {
          if (st !== undefined) return BAD;
          return ok({ v: val(name) }, ["-" + t.slice(2), ...rest], term);
        }
      }
      return NO;
    }
    case "arg": {
      let i = 0, tm = term;
      if (t === undefined) return NO;
      if (!tm) {
        if (t === "--") { tm = true; i = 1; }
        else if (/^--?[a-z0-9-]+$/i.test(t)) return NO;
      }
      if (toks.length < i + 1) return BAD;
      if (st !== undefined) return NO;
      return ok({ raw: toks[i] }, toks.slice(i + 1), tm, i + 1);
    }
    case "cmd": {
      if (st === undefined) {
        if (t === p[1] || p[3]?.aliases?.includes(t)) return ok({ st: init(p[2]), fresh: true }, rest, term);
        return NO;
      }
      const r = parse(p[2], st.st, toks, term);
      return r.n ? { ...r, sup: true, st: { st: r.st } } : r;
    }
    case "tup": case "concat": {
      // every child gets at most one turn per round, highest priority first
      let left = p[1].map((q, i) => i).sort((a, b) => prio(p[1][b]) - prio(p[1][a]) || a - b);
      let cur = { st, toks, term }, n = 0, sup = false;
      for (;;) {
        let hit = false, bad = false;
        for (const i of left) {
          const r = parse(p[1][i], cur.st[i], cur.toks, cur.term);
          if (r.n) {
            cur = { st: cur.st.map((s, j) => j === i ? r.st : s), toks: r.toks, term: r.term };
            n += r.n; sup ||= r.sup; left = left.filter((j) => j !== i); hit = true; break;
          }
          bad ||= r.bad;
        }
        // recorded finding of P02: an untouched sequence next to other parts is closed too early
        if (!hit && n && left.some((i) => JSON.stringify(p[1][i]).includes('"seq"') && canSkip(p[1][i], cur.st[i]))) throw UNSPEC;
        if (!hit) return bad ? BAD : n ? ok(cur.st, cur.toks, cur.term, n, sup) : NO;
      }
    }
    case "merge": {
      // One child takes one turn per step.
      const order = p[1].map((q, i) => i).sort((a, b) => prio(p[1][b]) - prio(p[1][a]) || a - b);
      for (const i of order) {
        const r = parse(p[1][i], st[i], toks, term);
        if (r.n) return { ...r, st: st.map((s, j) => j === i ? r.st : s) };
        if (r.bad) return BAD;
      }
      return NO;
    }
    case "obj": {
      const isObj = p[0] === "obj";
      const ch = (isObj ? Object.entries(p[1]) : p[1].map((q, i) => [i, q]));
      const sorted = ch.map((x, i) => ({ x, i })).sort((a, b) => prio(b.x[1]) - prio(a.x[1]) || a.i - b.i).map((y) => y.x);
      let cur = { st, toks, term }, n = 0, bad = false, progress = true, sup = false;
      while (progress && cur.toks.length) {
        progress = false;
        for (const [k, q] of sorted) {
          const r = parse(q, cur.st[k], cur.toks, cur.term);
          if (r.n) {
            const ns = isObj ? { ...cur.st, [k]: r.st } : cur.st.map((s, i) => i === k ? r.st : s);
            cur = { st: ns, toks: r.toks, term: r.term }; n += r.n; sup ||= r.sup; progress = true; break;
          }
          bad ||= r.bad;
        }
      }
      return n ? ok(cur.st, cur.toks, cur.term, n, sup) : bad ? BAD : NO;
    }
    case "seq": {
      // A started sequence runs on for as long as it can; if a part that is
      // still needed does not match, the sequence fails.
      let cur = { st, toks, term }, n = 0, sup = false;
      const stop = (bad) => (n || bad ? BAD : NO);
      let i = st.at;
      while (i < p[1].length && cur.toks.length) {
        // A name of a later part is not taken as a positional by a part that may end here.
        // recorded finding of P02: --name=value of a later composite part
        if (cur.toks[0].includes("=") && p[1].slice(i + 1).some((q) => ["obj", "tup", "concat", "merge"].includes(core(q)[0]) && leads(q, init(q), cur.toks[0], false))) throw UNSPEC;
        if (core(p[1][i])[0] === "or" && !cur.st.st[i] && bareBool(core(p[1][i]))) throw UNSPEC;
        // recorded finding of P02: repeated commands inside a sequence
        if (core(p[1][i])[0] === "mult" && core(core(p[1][i])[1])[0] === "cmd" && cur.st.st[i].at?.(-1)?.fresh) throw UNSPEC;
        if (canSkip(p[1][i], cur.st.st[i]) && !leads(p[1][i], cur.st.st[i], cur.toks[0], cur.term)) {
          let j = i + 1;
          while (j < p[1].length && !leads(p[1][j], cur.st.st[j], cur.toks[0], cur.term) && canSkip(p[1][j], cur.st.st[j])) j++;
          if (j < p[1].length && leads(p[1][j], cur.st.st[j], cur.toks[0], cur.term)) { i = j; continue; }
        }
        const r = parse(p[1][i], cur.st.st[i], cur.toks, cur.term);
        if (r.n) {
          cur = { st: { at: i, st: cur.st.st.map((s, j) => j === i ? r.st : s) }, toks: r.toks, term: r.term };
          n += r.n; sup ||= r.sup;
        } else if (r.bad || !canSkip(p[1][i], cur.st.st[i])) return stop(r.bad);
        else i++;
      }
      return n ? ok({ at: i, st: cur.st.st }, cur.toks, cur.term, n, sup) : NO;
    }
    case "or": {
      // The active branch goes on if it can; otherwise another branch may take
      // over if it can also account for everything consumed so far.
      const order = p[1].map((q, i) => i);
      if (st) order.sort((x, y) => (y === st.i) - (x === st.i) || x - y);
      let bad = false;
      if (!st && t === "--") throw UNSPEC; // which branch sees the terminator is not specified
      for (const i of order) {
        const q = p[1][i], active = st?.i === i;
        const r = parse(q, active ? st.st : init(q), toks, term);
        if (r.n) {
          const used = toks.slice(0, toks.length - r.toks.length);
          if (used.length < r.n || (r.toks.length && !toks.includes(r.toks[0]))) { if (p[1].length > 1 && !r.toks.every((x) => toks.includes(x))) throw UNSPEC; }
          if (!st || active) return { ...r, st: r.sup || st ? { i, st: r.st, term: r.term, hist: [...(st?.hist ?? []), ...used] } : st };
          let h = { st: init(q), toks: st.hist, term: term && st.term && !st.hist.includes("--"), n: 1 };
          while (h.n && h.toks.length) h = h.toks.length === 1 && h.toks[0] === "--" && !h.term ? { ...h, toks: [], term: true } : parse(q, h.st, h.toks, h.term);
          if (!h.n) { bad = true; continue; }
          const again = parse(q, h.st, toks, h.term || term);
          if (!again.n) { bad ||= again.bad; continue; }
          return { ...again, st: { i, st: again.st, term: again.term, hist: [...st.hist, ...toks.slice(0, toks.length - again.toks.length)] } };
        }
        bad ||= r.bad;
      }
      return bad ? BAD : NO;
    }
    case "optl": case "def": {
      const r = parse(p[1], st ? st.st : init(p[1]), toks, term);
      if (r.n && !r.sup && !st && p[1][0] !== "flag" && p[1][0] !== "bool" && p[1][0] !== "opt" && p[1][0] !== "neg") throw UNSPEC; // only `--` so far
      return r.n ? { ...r, st: r.sup || st ? { st: r.st } : undefined } : r;
    }
    case "map": case "ne": {
      const r = parse(p[1], st.st, toks, term);
      return r.n ? { ...r, st: { used: true, st: r.st } } : r;
    }
    case "group": return parse(p[2], st, toks, term);
    case "mult": {
      const max = p[2]?.max ?? Infinity;
      if (tupleLike(p[1])) throw UNSPEC;
      if (st.length && (p[1][0] === "cmd" && st.at(-1).fresh || !canSkip(p[1], st.at(-1)))) {
        const r = parse(p[1], st.at(-1), toks, term);
        if (r.n) return { ...r, st: [...st.slice(0, -1), r.st] };
        if (r.bad) throw UNSPEC; // an unfinished item, and a token it cannot take twice
      }
      if (st.length < max) {
        const r = parse(p[1], init(p[1]), toks, term);
        if (r.n && !r.sup && !["flag", "bool", "opt", "neg"].includes(p[1][0])) throw UNSPEC;
        if (r.n) return { ...r, st: r.sup ? [...st, r.st] : st };
        return r;
      }
      return NO;
    }
    case "const": case "fail": return NO;
    case "pass": {
      if (t === undefined) return NO;
      const take = (n) => ok([...st, ...toks.slice(0, n)], toks.slice(n), term, n);
      if (p[1] === "greedy") return take(toks.length);
      if (term) return NO;
      if (p[1] === "equalsOnly") return /^--[a-z0-9-]+=/i.test(t) ? take(1) : NO;
      if (t === "--" || t === "-") throw UNSPEC; // nobody else wants the terminator
      if (!t.startsWith("-")) return NO;
      if (t.includes("=") || rest[0] === undefined) return take(1);
      if (rest[0] === "-") throw UNSPEC; // a lone dash is no option, but starts with one
      return take(rest[0].startsWith("-") ? 1 : 2);
    }
  }
  throw new Error("ref parse " + p[0]);
}
// Does the node claim the token by one of its names?
export function leads(p, st, t, term) {
  switch (p[0]) {
    case "flag": case "bool": case "neg": case "opt":
      return !term && names(p).some((n) => t === n || (p[0] === "opt" && n.length > 2 && t.startsWith(n + (n[0] === "/" ? ":" : "="))));
    case "cmd": return st === undefined && (t === p[1] || !!p[3]?.aliases?.includes(t));
    case "obj": return Object.entries(p[1]).some(([k, q]) => leads(q, st[k], t, term));
    case "tup": case "merge": case "concat": return p[1].some((q, i) => leads(q, st[i], t, term));
    case "seq": { for (let i = st.at; i < p[1].length; i++) { if (leads(p[1][i], st.st[i], t, term)) return true; if (!canSkip(p[1][i], st.st[i])) return false; } return false; }
    case "or": return st ? leads(p[1][st.i], st.st, t, term) : p[1].some((q) => leads(q, init(q), t, term));
    case "optl": case "def": return leads(p[1], st ? st.st : init(p[1]), t, term);
    case "map": case "ne": return leads(p[1], st.st, t, term);
    case "group": return leads(p[2], st, t, term);
    case "mult": return leads(p[1], init(p[1]), t, term);
    default: return false;
  }
}
// Could this node end here as it is (whether its values are valid or not)?
export function canSkip(p, st) {
  switch (p[0]) {
    case "flag": case "neg": case "opt": case "arg": return st !== undefined;
    case "bool": case "optl": case "def": case "const": return st === undefined || !(p[0] === "optl" || p[0] === "def") || canSkip(p[1], st.st);
    case "cmd": return st !== undefined && canSkip(p[2], st.st);
    case "obj": return Object.entries(p[1]).every(([k, q]) => canSkip(q, st[k]));
    case "tup": case "merge": case "concat": return p[1].every((q, i) => canSkip(q, st[i]));
    case "seq": return p[1].every((q, i) => canSkip(q, st.st[i]));
    case "or": return st ? canSkip(p[1][st.i], st.st) : p[1].some((q) => q[0] === "const");
    case "map": case "ne": return (p[0] === "map" || st.used) && canSkip(p[1], st.st);
    case "group": return canSkip(p[2], st);
    case "mult": return st.length >= (p[2]?.min ?? 0) && st.every((s) => canSkip(p[1], s));
    case "fail": return false;
    case "pass": return true;
  }
  throw new Error("ref canSkip " + p[0]);
}
// The prose says an absent Boolean option is false, the parser wants a token: not judged.
const bareBool = (q) => q[0] === "bool" || (["map", "group"].includes(q[0]) && bareBool(q.at(-1))) || (["or", "tup", "seq", "concat"].includes(q[0]) && q[1].some(bareBool));
// An absent optional tuple-like is a recorded finding of P07 and not judged elsewhere.
const core = (q) => ["map", "group", "ne"].includes(q[0]) ? core(q[0] === "group" ? q[2] : q[1]) : q;
const tupleLike = (q) => ["tup", "seq", "concat", "merge"].includes(q[0]) || (["map", "group", "ne", "mult", "optl", "def"].includes(q[0]) && tupleLike(q[0] === "group" ? q[2] : q[1])) || (q[0] === "or" && q[1].some(tupleLike));
const absent = (q, v) => { if (tupleLike(q) || hasConst(q) || canSkip(q, init(q)) && !["bool", "optl", "def", "mult"].includes(core(q)[0])) throw UNSPEC; return { ok: true, v }; };
// constant() counts as supplying its value in some positions only
const hasConst = (q) => q[0] === "const" || (["map", "group", "or"].includes(q[0]) && [q.at(-1)].flat(1).some((x) => Array.isArray(x) && hasConst(x)));
const constant = (q) => q[0] === "const" || (q[0] === "map" || q[0] === "group") && constant(q.at(-1));
const F = { ok: false };
// The documentation does not settle the outcome.
export const UNSPEC = new Error("unspecified");
// fin: {ok, v}; `complete` marks an item multiple() may not extend.
export function fin(p, st) {
  switch (p[0]) {
    case "flag": case "neg": return st ? { ok: true, v: st.v, complete: true } : F;
    case "bool": return { ok: true, v: st ? st.v : false, complete: !!st };
    case "opt": case "arg": return st ? { ...values[p[2 - (p[0] === "arg")]](st.raw), complete: true } : F;
    case "cmd": return st ? fin(p[2], st.st) : F;
    case "obj": {
      const v = {};
      for (const [k, q] of Object.entries(p[1])) { const r = fin(q, st[k]); if (!r.ok) return F; v[k] = r.v; }
      return { ok: true, v, complete: true };
    }
    case "tup": {
      const v = [];
      for (let i = 0; i < p[1].length; i++) { const r = fin(p[1][i], st[i]); if (!r.ok) return F; v.push(r.v); }
      return { ok: true, v, complete: true };
    }
    case "seq": return fin(["tup", p[1]], st.st);
    case "merge": {
      const r = fin(["tup", p[1]], st);
      return r.ok ? { ok: true, v: Object.assign({}, ...r.v), complete: true } : F;
    }
    case "concat": {
      const r = fin(["tup", p[1]], st);
      return r.ok ? { ok: true, v: r.v.flat(1), complete: true } : F;
    }
    case "or": {
      if (st) return fin(p[1][st.i], st.st);
      // nothing given: the one branch that needs no input, if there is one
      const z = p[1].filter((q) => bareBool(q) || fin(q, init(q)).ok);
      if (z.length > 1 || z.some((q) => !constant(q))) throw UNSPEC;
      const c = z.map((q) => fin(q, init(q)));
      return c.length ? c[0] : F;
    }
    case "optl": return st ? fin(p[1], st.st) : absent(p[1], undefined);
    case "def": return st ? fin(p[1], st.st) : absent(p[1], p[2]);
    case "map": { const r = fin(p[1], st.st); return r.ok ? { ...r, v: mapFn(r.v) } : F; }
    case "ne": if (!st.used) throw UNSPEC; return fin(p[1], st.st);
    case "group": return fin(p[2], st);
    case "mult": {
      if (tupleLike(p[1])) throw UNSPEC;
      const v = [];
      for (const s of st) { const r = fin(p[1], s); if (!r.ok) return F; v.push(r.v); }
      if (v.length < (p[2]?.min ?? 0) || v.length > (p[2]?.max ?? Infinity)) return F;
      return { ok: true, v };
    }
    case "const": return { ok: true, v: p[1] };
    case "fail": return F;
    case "pass": return { ok: true, v: st };
  }
  throw new Error("ref fin " + p[0]);
}
export function run(p, toks) {
  try { return run1(p, toks); } catch (e) { if (e === UNSPEC) return { unspecified: true }; throw e; }
}
function run1(p, toks) {
  let st = init(p), cur = toks, term = false;
  while (cur.length) {
    const r = parse(p, st, cur, term);
    if (!r.n) return { ok: false };
    st = r.st; cur = r.toks; term = r.term;
  }
  if (p[0] === "ne" && !st.used) return { ok: false };
  const f = fin(p, st);
  return f.ok ? { ok: true, v: f.v } : { ok: false };
}

// Program ASTs (plain JSON arrays) -> real optique parsers.
//   ["flag",names] ["bool",names] ["neg",pos,negs] ["opt",names,vp] ["arg",vp]
//   ["cmd",name,p,{aliases}] ["obj",{k:p}] ["tup",[p]] ["seq",[p]] ["merge",[obj]]
//   ["concat",[tup]] ["group",label,p] ["or",[p]] ["long",[p]]
//   ["cond",disc,{k:p},default|null] ["optl",p] ["def",p,v] ["mult",p,{min,max}]
//   ["map",p] ["ne",p] ["const",v] ["fail"] ["pass",format]
// vp: "str" | "int" | "ab" (choice a|b) | "num" (1-digit integer 0..9) ; opts object as last element
export async function api(ctx) {
  const [constructs, modifiers, primitives, parser, vp, usage, message, doc, nonempty, program] = await Promise.all([
    "constructs", "modifiers", "primitives", "parser", "valueparser", "usage", "message", "doc", "nonempty", "program",
  ].map((m) => ctx.load(`core/src/${m}.js`)));
  return { ...constructs, ...modifiers, ...primitives, ...parser, ...usage, ...message, ...doc, vp, nonEmptyFn: nonempty, program };
}

export function valueParser(A, spec, async) {
  const base = typeof spec === "object" ? spec : spec === "str" ? A.vp.string({ metavar: "STR" })
    : spec === "int" ? A.vp.integer({ metavar: "INT" })
    : spec === "num" ? A.vp.integer({ min: 0, max: 9, metavar: "NUM" })
    : spec === "ab" ? A.vp.choice(["a", "b"], { metavar: "AB" })
    : spec === "abc" ? A.vp.choice(["alpha", "beta", "bar"], { metavar: "ABC" })
    : (() => { throw new Error("vp " + spec); })();
  return async ? async(base) : base;
}
// Wraps a sync value parser into one that answers through promises; `gate`
// decides when each answer is delivered (default: one microtask).
export const asyncOf = (gate = () => undefined) => (base) => {
  const w = {
    mode: "async", metavar: base.metavar, placeholder: base.placeholder,
    parse: async (input) => { await gate("parse", input); return base.parse(input); },
    format: base.format?.bind(base),
  };
  if (base.choices) w.choices = base.choices;
  if (base.normalize) w.normalize = base.normalize.bind(base);
  if (base.validate) w.validate = (v) => base.validate(v);
  if (base.suggest) w.suggest = async function* (prefix) { await gate("suggest", prefix); yield* base.suggest(prefix); };
  return w;
};
export const mapFn = (v) => ({ mapped: v });

export function toParser(A, p, async) {
  const T = (q) => toParser(A, q, async);
  const o = typeof p.at(-1) === "object" && p.at(-1) !== null && !Array.isArray(p.at(-1)) ? p.at(-1) : undefined;
  switch (p[0]) {
    case "flag": return A.flag(...p[1], ...(o ? [o] : []));
    case "bool": return A.option(...p[1], ...(o ? [o] : []));
    case "neg": return A.negatableFlag({ positive: p[1], negative: p[2] }, ...(p[3] ? [p[3]] : []));
    case "opt": return A.option(...p[1], valueParser(A, p[2], async), ...(p[3] ? [p[3]] : []));
    case "arg": return A.argument(valueParser(A, p[1], async), ...(p[2] ? [p[2]] : []));
    case "cmd": return A.command(p[1], T(p[2]), ...(p[3] ? [p[3]] : []));
    case "obj": {
      const f = Object.fromEntries(Object.entries(p[1]).map(([k, q]) => [k, T(q)]));
      return p[2] ? (typeof p[2] === "string" ? A.object(p[2], f, ...(p[3] ? [p[3]] : [])) : A.object(f, p[2])) : A.object(f);
    }
    case "tup": return typeof p[2] === "string" ? A.tuple(p[2], p[1].map(T)) : A.tuple(p[1].map(T), ...(p[2] ? [p[2]] : []));
    case "seq": return A.seq(...p[1].map(T), ...(p[2] ? [p[2]] : []));
    case "merge": return A.merge(...(typeof p[2] === "string" ? [p[2]] : []), ...p[1].map(T), ...(p[2] && typeof p[2] !== "string" ? [p[2]] : []));
    case "concat": return A.concat(...p[1].map(T));
    case "group": return A.group(p[1], T(p[2]), ...(p[3] ? [p[3]] : []));
    case "or": return A.or(...p[1].map(T), ...(p[2] ? [p[2]] : []));
    case "long": return A.longestMatch(...p[1].map(T), ...(p[2] ? [p[2]] : []));
    case "cond": {
      const b = Object.fromEntries(Object.entries(p[2]).map(([k, q]) => [k, T(q)]));
      return p[3] ? A.conditional(T(p[1]), b, T(p[3])) : A.conditional(T(p[1]), b);
    }
    case "optl": return A.optional(T(p[1]));
    case "def": return A.withDefault(T(p[1]), p[2]);
    case "mult": return A.multiple(T(p[1]), p[2] ?? {});
    case "map": return A.map(T(p[1]), mapFn);
    case "ne": return A.nonEmpty(T(p[1]));
    case "const": return A.constant(p[1]);
    case "fail": return A.fail();
    case "pass": return A.passThrough({ format: p[1] });
  }
  throw new Error("unknown " + p[0]);
}

// Canonical text of any value, distinguishing undefined, -0, NaN, bigint, Date...
export function show(v, d = 0) {
  if (d > 12) return "…";
  if (v === undefined) return "undefined";
  if (v === null) return "null";
  if (typeof v === "boolean") return String(v);
  if (typeof v === "bigint") return v + "n";
  if (typeof v === "number") return Object.is(v, -0) ? "-0" : String(v);
  if (typeof v === "string") return JSON.stringify(v);
  if (typeof v === "symbol") return String(v);
  if (typeof v === "function") return "fn";
  if (v instanceof URL) return `URL(${v.href})`;
  if (v instanceof Error) return `Error(${v.message})`;
  if (v instanceof Intl.Locale) return `Locale(${v})`;
  if (Array.isArray(v)) return "[" + Array.from(v, (x) => show(x, d + 1)).join(",") + "]";
  if (v instanceof Date) return `Date(${+v})`;
  if (v instanceof Map) return `Map(${show([...v])})`;
  if (v instanceof Set) return `Set(${show([...v])})`;
  return "{" + Reflect.ownKeys(v).sort((a, b) => String(a) < String(b) ? -1 : 1).map((k) => String(k) + ":" + show(v[k], d + 1)).join(",") + "}";
}
// Every token list over the alphabet up to the given length, shortest first.
export function* tokenLists(alphabet, max, min = 0) {
  for (let n = min; n <= max; n++) {
    const idx = new Array(n).fill(0);
    for (;;) {
      yield idx.map((i) => alphabet[i]);
      let k = n - 1;
      while (k >= 0 && ++idx[k] === alphabet.length) idx[k--] = 0;
      if (k < 0) break;
    }
  }
}
// Depth-first walk of token lists that lets the visitor prune subtrees.
export function walkTokens(alphabet, max, visit, prefix = []) {
  if (visit(prefix) === false) return;
  if (prefix.length < max) for (const t of alphabet) walkTokens(alphabet, max, visit, [...prefix, t]);
}
export function* subsets(xs, min = 0, max = xs.length) {
  for (let m = 0; m < 2 ** xs.length; m++) {
    const s = xs.filter((_, i) => m >> i & 1);
    if (s.length >= min && s.length <= max) yield s;
  }
}
export function* permutations(xs) {
  if (xs.length <= 1) { yield xs.slice(); return; }
  for (let i = 0; i < xs.length; i++) for (const r of permutations([...xs.slice(0, i), ...xs.slice(i + 1)])) yield [xs[i], ...r];
}
export function* product(...lists) {
  if (!lists.length) { yield []; return; }
  const [h, ...t] = lists;
  for (const x of h) for (const r of product(...t)) yield [x, ...r];
}
export function* combos(xs, k, start = 0) {
  if (k === 0) { yield []; return; }
  for (let i = start; i < xs.length; i++) for (const r of combos(xs, k - 1, i + 1)) yield [xs[i], ...r];
}
export const plainMsg = (A, m) => A.formatMessage(m, { quotes: true, colors: false });

// P14: numeric value parsers on every short string over a numeric alphabet, on
// all boundary values with their neighbours, and on every near-miss of those,
// against hand-written recognisers with exact (BigInt) arithmetic.
import { api } from "../lib/prog.mjs";
import { NO, yes, runAll, replayOne, strings, mutations, prod, J } from "../lib/vp.mjs";
export const meta = {
  rule: "an input string under a configuration, or a value under a configuration",
  assumptions: ["white space around a file size or port range, spellings of NaN and Infinity other than the documented ones, and float overflow when Infinity is allowed are not specified", "ports and bounds are judged after dropping leading zeros"],
};
const isD = (c) => c >= "0" && c <= "9" && c.length === 1;
const digits = (s) => s.length > 0 && [...s].every(isD);
const big = (s) => { let n = 0n; for (const c of s) n = n * 10n + BigInt(c.charCodeAt(0) - 48); return n; };
function int(s) { const neg = s[0] === "-", d = neg ? s.slice(1) : s; return digits(d) ? (neg ? -big(d) : big(d)) : undefined; }
// exact decimal: {n, e} meaning n * 10^e
function dec(s) {
  let i = 0, neg = false;
  if (s[0] === "+" || s[0] === "-") { neg = s[0] === "-"; i = 1; }
  let a = "", b = ""; while (i < s.length && isD(s[i])) a += s[i++];
  const dot = s[i] === "."; if (dot) { i++; while (i < s.length && isD(s[i])) b += s[i++]; }
  if (!a && !b) return;
  return { neg, n: big(a + b), scale: b.length, rest: s.slice(i) };
}
const SAFE = 2n ** 53n - 1n;
const cmp = (x, m) => m === undefined ? 0 : typeof m === "bigint" ? (x < m ? -1 : x > m ? 1 : 0) : (Number(x) < m ? -1 : Number(x) > m ? 1 : 0);
const inside = (x, c) => !(c?.min !== undefined && cmp(x, c.min) < 0) && !(c?.max !== undefined && cmp(x, c.max) > 0);
const NEAR = ["0", "1", "-1", "5", "10", "1023", "1024", "65535", "65536", "9007199254740991", "9007199254740992", "9007199254740993", "-9007199254740991", "-9007199254740992", "18446744073709551616", "100000000000000000000000000000000000000000"];
const near = () => { const out = new Set(); for (const b of NEAR) for (let d = -2n; d <= 2n; d++) { const v = BigInt(b) + d; for (const f of [(x) => x, (x) => "0" + x, (x) => x.replace(/^-?/, "$&00"), (x) => "+" + x, (x) => x + ".0", (x) => x + "n", (x) => x + "e0", (x) => " " + x, (x) => x + " ", (x) => x + "\n", (x) => "-" + x, (x) => x.replace(/(\d)(\d\d\d)$/, "$1,$2"), (x) => x.replace(/(\d)(\d\d\d)$/, "$1_$2"), (x) => "0x" + x, (x) => x.replace(/\d$/, (k) => String.fromCodePoint(0x660 + +k)), (x) => x.replace(/\d$/, (k) => String.fromCodePoint(0xff10 + +k))]) out.add(f(String(v))); } return out; };
const NUM = ["0", "1", "9", "-", "+", ".", "e", " ", "a", "_", "\u0663"];
function* numeric(quick) { yield* strings(NUM, quick ? 4 : 6); yield* near(); }
const bounds = (list, conv) => prod([undefined, ...list], [undefined, ...list]).filter(([a, b]) => a === undefined || b === undefined || a <= b).map(([min, max]) => ({ ...(min !== undefined ? { min: conv(min) } : {}), ...(max !== undefined ? { max: conv(max) } : {}) }));
const eqNum = (a, b) => typeof a === typeof b && (a === b || a !== a && b !== b);
const UNITS = ["b", "kb", "mb", "gb", "tb", "pb", "eb", "kib", "mib", "gib", "tib", "pib", "eib"];
const mult = (u, bin) => { const i = "bkmgtpe".indexOf(u[0]); return u === "b" ? 1n : u.length === 3 || bin ? 1024n ** BigInt(i) : 1000n ** BigInt(i); };
function size(c, s) {
  if (s !== s.trim()) return;
  const d = dec(s); if (!d) return NO;
  let u = d.rest; while (u && /\s/u.test(u[0])) u = u.slice(1);
  u = u.toLowerCase();
  if (u === "" && d.rest !== "") return NO;
  if (u === "") { if (!c.defaultUnit) return NO; u = c.defaultUnit.toLowerCase(); }
  if (!UNITS.includes(u) || !/^[a-z]*$/i.test(d.rest.trim())) return NO;
  const num = d.n * mult(u, c.siAsBinary), den = 10n ** BigInt(d.scale);
  if (num % den) return NO;
  const v = (d.neg ? -1n : 1n) * (num / den);
  if (v < 0n && !c.allowNegative) return NO;
  if (c.type === "bigint") return yes(v);
  return v > SAFE || v < -SAFE ? NO : yes(Number(v));
}
const port = (c, s) => {
  const v = int(s); if (v === undefined) return NO;
  if (v < (c.min === undefined ? 1n : BigInt(c.min)) || v > (c.max === undefined ? 65535n : BigInt(c.max))) return NO;
  if (c.disallowWellKnown && v >= 1n && v <= 1023n) return NO;
  return yes(c.type === "bigint" ? v : Number(v));
};
const portCfg = (extra = [{}]) => prod([undefined, "number", "bigint"], [undefined, 0, 1, 1024, 8000], [undefined, 1024, 9000, 65535], [undefined, true], extra).filter(([t, a, b, w]) => (a ?? 1) <= (b ?? 65535) && !(w && (b ?? 65535) < 1024)).map(([type, min, max, w, x]) => { const f = (k, v) => v === undefined ? {} : { [k]: type === "bigint" ? BigInt(v) : v }; return { ...(type ? { type } : {}), ...f("min", min), ...f("max", max), ...(w ? { disallowWellKnown: true } : {}), ...x }; });
const PORTS = ["0", "1", "2", "80", "1023", "1024", "1025", "7999", "8000", "8001", "9000", "9001", "65534", "65535", "65536", "-1", "080", "+80", "8 0", "", " 80", "80 ", "x", "1e3", "80.0", "0x50", "\uff18\uff10", "99999999999999999999"];
export const entries = {
  integer: {
    configs: [undefined, ...prod([undefined, "number"], bounds([-5, 0, 1, 10, 65535], (x) => x)).map(([type, b]) => ({ ...(type ? { type } : {}), ...b })), { min: 0.5 }, { max: 9.5 }, { max: 2 ** 60 }, ...bounds([-5n, 0n, 1n, 10n, 2n ** 53n], (x) => x).map((b) => ({ type: "bigint", ...b }))],
    make: (A, c) => A.vp.integer(c), eq: eqNum,
    inputs: (c, quick) => numeric(quick),
    oracle: (c, s) => { const v = int(s); if (v === undefined) return NO; if (c?.type === "bigint") return inside(v, c) ? yes(v) : NO; return v > SAFE || v < -SAFE || !inside(v, c) ? NO : yes(Number(v)); },
  },
  float: {
    configs: [undefined, ...prod([false, true], [false, true], bounds([-5, 0, 0.5, 10], (x) => x)).map(([n, i, b]) => ({ ...(n ? { allowNaN: true } : {}), ...(i ? { allowInfinity: true } : {}), ...b }))],
    make: (A, c) => A.vp.float(c), eq: eqNum,
    *inputs(c, quick) {
      yield* numeric(quick);
      for (const s of ["NaN", "Infinity", "-Infinity", "nan", "1e10", "1.5e-3", "5.67E-4", "1e+5", "1e309", "-1e309", "1e-400", "0.1", "9007199254740993", "1.7976931348623157e308", "5e-324", ".5", "42.", "0.5", "0.49999999999999994", "10.000000000000002"]) yield* mutations(s, ["0", ".", "e", "-", "+", " ", "x", "\n", "_", ","]);
    },
    oracle(c, s) {
      const sp = { NaN: NaN, Infinity: Infinity, "-Infinity": -Infinity };
      const range = (v) => c?.min !== undefined && v < c.min || c?.max !== undefined && v > c.max ? NO : yes(v);
      if (Object.hasOwn(sp, s)) { if (!(s === "NaN" ? c?.allowNaN : c?.allowInfinity)) return NO; if (s === "NaN" && (c.min !== undefined || c.max !== undefined)) return; return range(sp[s]); }
      const d = dec(s); if (!d) { return /^[+-]?(nan|infinity)$/i.test(s) && (c?.allowNaN || c?.allowInfinity) ? undefined : NO; }
      let e = 0n;
      if (d.rest) { if (!/^e/i.test(d.rest)) return NO; const r = d.rest.slice(1); if (!digits(r[0] === "+" || r[0] === "-" ? r.slice(1) : r)) return NO; e = int(r[0] === "+" ? r.slice(1) : r); }
      // nearest double, by exact comparison with its neighbours
      const v = Number(`${d.neg ? "-" : ""}${d.n}e${e - BigInt(d.scale)}`);
      if (!Number.isFinite(v)) return c?.allowInfinity ? undefined : NO;
      return range(v);
    },
    values: (c) => c?.min !== undefined || c?.max !== undefined ? [] : [0, -0, 1, 0.1, 1e21, 1e-7, 5e-324, 1.7976931348623157e308, 123456789012345680000, -2.5],
  },
  fileSize: {
    configs: prod([undefined, "number", "bigint"], [undefined, true], [undefined, true], [undefined, "B", "KB", "GB", "MiB", "EB"]).map(([type, n, s, u]) => ({ ...(type ? { type } : {}), ...(n ? { allowNegative: true } : {}), ...(s ? { siAsBinary: true } : {}), ...(u ? { defaultUnit: u } : {}) })),
    make: (A, c) => A.vp.fileSize(c), eq: eqNum, oracle: size,
    *inputs(c, quick) {
      yield* strings(["0", "1", "5", ".", "-", "+", "k", "I", "b", " ", "e"], quick ? 4 : 6);
      const units = ["", ...UNITS, "B", "KB", "Mb", "GiB", "kIb", "PIB", "EB", "EiB", "ZB", "K", "KI", "BB", "KBB", "kb/s"];
      const nums = ["0", "1", "01", "10", "1.5", "1.25", "0.5", ".5", "5.", "1.0", "1.05", "0.001", "0.0001", "1.0009765625", "1023", "1024", "8", "7.99", "8.191", "9007199254740991", "9007199254740992", "9007.199254740991", "9007199.254740992", "1.0000000000000001", "8388607.9990234375", "1e3", "1,000", "1_0", "0x10", "\u0663", "NaN", "Infinity", "."];
      for (const [s, n, w, u] of prod(["", "-", "+", "--"], nums, ["", " ", "  ", "\t", "_"], units)) yield s + n + w + u;
    },
    *values(c, quick) {
      const neg = c.allowNegative ? [1n, -1n] : [1n], bigint = c.type === "bigint", lim = quick ? 1300n : 100000n;
      if (quick && c.defaultUnit && c.defaultUnit !== "B") return;
      for (const u of UNITS.slice(1)) { const m = mult(u, u.length === 2 && c.siAsBinary); for (let k = 99n; k <= lim; k++) for (const d of [0n, 1n]) for (const s of neg) { const v = s * (k * m / 100n + d); if (bigint) yield v; else if (v <= SAFE && v >= -SAFE) yield Number(v); } }
      for (let v = 0n; v < 3000n; v++) yield bigint ? v : Number(v);
      for (const b of [SAFE, SAFE - 1n, 2n ** 60n, 2n ** 63n, 10n ** 21n - 1n, 10n ** 22n, 999n * 10n ** 18n, 1000n * 10n ** 18n, 1023n * 2n ** 60n, 2n ** 70n]) for (let d = -2n; d <= 2n; d++) for (const s of neg) { const v = s * (b + d); if (bigint) yield v; else if (v <= SAFE && v >= -SAFE) yield Number(v); }
    },
  },
  port: {
    configs: [undefined, ...portCfg()], make: (A, c) => A.vp.port(c), eq: eqNum, oracle: (c, s) => port(c ?? {}, s),
    *inputs(c, quick) { yield* strings(["0", "1", "8", "-", " ", "e", "."], quick ? 4 : 6); for (const p of PORTS) yield* mutations(p, ["0", "1", "9", "-", " ", "x"]); yield* near(); if (!quick || !c) for (let i = 0; i <= 70000; i++) yield String(i); },
  },
  portRange: {
    configs: portCfg([{}, { allowSingle: true }, { separator: ":" }, { separator: " to ", allowSingle: true }, { separator: "--" }]).filter((c) => c.min === undefined || Number(c.min) !== 0), make: (A, c) => A.vp.portRange(c),
    eq: (a, b) => eqNum(a.start, b.start) && eqNum(a.end, b.end) && Object.keys(a).length === 2,
    oracle(c, s) {
      if (s !== s.trim()) return;
      const sep = c.separator ?? "-";
      // every way to split: the range is well-formed if one gives two ports
      if (!s.includes(sep)) { if (!c.allowSingle) return NO; const r = port(c, s); return r.ok ? yes({ start: r.v, end: r.v }) : NO; }
      for (let i = s.indexOf(sep); i >= 0; i = s.indexOf(sep, i + 1)) { const a = port(c, s.slice(0, i)), b = port(c, s.slice(i + sep.length)); if (a.ok && b.ok) return a.v > b.v ? NO : yes({ start: a.v, end: b.v }); }
      return NO;
    },
    *inputs(c, quick) {
      const P = quick ? PORTS.filter((x, i) => i % 2 === 0 || ["1023", "9001", "65535", ""].includes(x)) : PORTS;
      for (const [a, sep, b] of prod(P, ["-", ":", " to ", "--", "", " - ", "\u2013"], P)) yield a + sep + b;
      for (const [a, b, d] of prod(["80", "8080"], ["90", "9000"], ["8100", ""])) for (const x of ["-", ":", " to ", "--"]) yield a + x + b + x + d;
    },
  },
};
export async function run(ctx) { const A = await api(ctx); await runAll(ctx, A, entries); }
export async function replay(ctx, d) { await replayOne(ctx, await api(ctx), entries, d); }

// P16: text value parsers on every short string over their alphabets, every
// composition of boundary components and every near-miss of representatives,
// against independent recognisers.
import { readFileSync } from "node:fs";
import { api } from "../lib/prog.mjs";
import { NO, yes, runAll, replayOne, strings, mutations, prod, J } from "../lib/vp.mjs";
const CSS = JSON.parse(readFileSync(new URL("../lib/css-colors.json", import.meta.url)));
export const meta = {
  rule: "an input string under a configuration, or a value under a configuration",
  assumptions: ["white space around colours, the colour keyword transparent, scientific spellings and signed zeros of number choices that do not match the declared spelling, and steps applied to a single cron value are not specified",
    "JSON numbers beyond the double range are not specified beyond round-tripping", "which values a language tag denotes is taken from Intl.Locale, and what JSON text denotes from JSON.parse"],
};
const isD = (c) => c.length === 1 && c >= "0" && c <= "9", digits = (s) => s.length > 0 && [...s].every(isD);
const hexd = (s) => s.length > 0 && [...s.toLowerCase()].every((c) => "0123456789abcdef".includes(c));
// ---- string ----
const E = {};
E.string = {
  configs: [{}, { pattern: /^a+b$/ }, { pattern: /a/g }, { pattern: /a/y }, { pattern: /^[ab]x?$/i }, { pattern: /^$/ }, { pattern: /^a$/m }, { pattern: /a.b/s }],
  make: (A, c) => A.vp.string(c), inputs: (c, q) => strings(["a", "A", "b", "x", "\n"], q ? 5 : 7),
  oracle: (c, s) => !c.pattern || new RegExp(c.pattern.source, c.pattern.flags).exec(s) !== null ? yes(s) : NO,
};
// ---- choice ----
const words = [["a", "ab", "B"], ["Yes", "no", "NO-way"], ["x"], ["1", "01"], ["é", "ß"], ["a b", " a"]];
E.choice = {
  configs: words.flatMap((w) => [{ w }, { w, caseInsensitive: false }, { w, caseInsensitive: true }]),
  make: (A, c) => A.vp.choice(c.w, c.caseInsensitive === undefined ? {} : { caseInsensitive: c.caseInsensitive }),
  *inputs(c) { for (const w of c.w) for (const m of mutations(w, ["a", "A", "b", " ", "-", "1", "0"])) { yield m; yield m.toUpperCase(); yield m.toLowerCase(); } yield* strings(["a", "b", "A", "B", "x", "0", "1", " "], 3); },
  oracle: (c, s) => { const hit = c.w.find((w) => w === s) ?? (c.caseInsensitive ? c.w.find((w) => w.toLowerCase() === s.toLowerCase()) : undefined); return hit === undefined ? NO : yes(hit); },
};
// exact decimal value as [digits BigInt, scale], sign
function dec(s) {
  let i = 0, neg = false; if (s[0] === "+" || s[0] === "-") { neg = s[0] === "-"; i = 1; }
  const [ip, fp, ...more] = s.slice(i).split("."); if (more.length || ip === "" && !fp || ip !== "" && !digits(ip) || fp && !digits(fp)) return;
  let n = BigInt((ip || "0") + (fp ?? "")), sc = (fp ?? "").length; if (neg) n = -n;
  while (sc > 0 && n % 10n === 0n) { n /= 10n; sc--; }
  return { n, sc, neg };
}
function expand(v) { // exact value of the shortest decimal spelling of a double
  const t = String(v), [m, e] = t.toLowerCase().split("e"); const d = dec(m); let { n, sc } = d; if (e) sc -= +e;
  while (sc < 0) { n *= 10n; sc++; } while (sc > 0 && n % 10n === 0n) { n /= 10n; sc--; }
  return { n, sc };
}
const nums = [[8, 10, 0.5], [0, 1], [0, -0, 2], [-0, 3], [1e21, 1e-7, 5], [-1, 1.25], [9007199254740993, 100], [Infinity, 1]];
E.numberChoice = {
  configs: nums.map((w) => ({ w })), make: (A, c) => A.vp.choice(c.w),
  *inputs(c, q) {
    const al = ["0", "1", "5", "8", ".", "-", "+", "e", " ", "x"]; yield* strings(al, q ? 4 : 5);
    for (const v of c.w) { const f = Object.is(v, -0) ? "-0" : String(v); yield* mutations(f, al); for (const x of [f + ".0", "0" + f, "+" + f, f + ".", f + "e0", "0x" + f, v.toLocaleString("en")]) yield x; }
    for (const x of ["1000000000000000000000", "1000000000000000000001", "0.0000001", "9007199254740992", "9007199254740993", "9007199254740992.0", "Infinity", "-Infinity", "NaN", "0x8", "0b1", "1_0", "1,000", "٨", "8\n"]) yield x;
  },
  oracle(c, s) {
    for (const v of c.w) if (s === (Object.is(v, -0) ? "-0" : String(v))) return yes(v);
    const d = dec(s);
    if (d) {
      if (d.n === 0n) return c.w.includes(0) ? c.w.some((v) => Object.is(v, -0)) || d.neg ? undefined : yes(0) : NO;
      for (const v of c.w) if (Number.isFinite(v)) { const e = expand(v); if (e.n === d.n && e.sc === d.sc) return yes(v); }
      return NO;
    }
    return /^[+-]?[0-9.]+e[+-]?[0-9]+$/i.test(s) ? undefined : NO;
  },
};
// ---- color ----
const FM = ["hex", "rgb", "hsl", "named"];
const dnum = (s) => { const d = dec(s); return d && isD(s[0] === "." ? "0" : s[0]) ? Number(s) : undefined; };
function hsl(h, s, l) { // CSS chroma construction
  h = (((h % 360) + 360) % 360) / 60; const c = (1 - Math.abs(2 * l - 1)) * s, x = c * (1 - Math.abs(h % 2 - 1)), m = l - c / 2;
  const t = h < 1 ? [c, x, 0] : h < 2 ? [x, c, 0] : h < 3 ? [0, c, x] : h < 4 ? [0, x, c] : h < 5 ? [x, 0, c] : [c, 0, x];
  return t.map((v) => (v + m) * 255);
}
function OColor(c, s) {
  const f = c.formats ?? FM; if (s !== s.trim() || /[^\x20-\x7e]/.test(s)) return undefined;
  if (s[0] === "#") {
    const h = s.slice(1); if (!hexd(h) || ![3, 4, 6, 8].includes(h.length) || !f.includes("hex")) return NO;
    const v = h.length < 5 ? [...h].map((x) => parseInt(x + x, 16)) : h.match(/../g).map((x) => parseInt(x, 16));
    return yes({ r: v[0], g: v[1], b: v[2], a: v.length === 4 ? v[3] / 255 : 1 });
  }
  const k = s.indexOf("(");
  if (k >= 0) {
    const name = s.slice(0, k).toLowerCase(); if (!["rgb", "rgba", "hsl", "hsla"].includes(name)) return NO;
    const kind = name.slice(0, 3); if (!f.includes(kind) || s.at(-1) !== ")") return NO;
    const p = s.slice(k + 1, -1).split(",").map((x) => x.trim()); if (p.length < 3 || p.length > 4) return NO;
    if (p.some((x) => /^\.|\.$/.test(x.replace("%", "").replace("-", "")))) return undefined;
    let a = 1; if (p.length === 4) { a = dnum(p[3]); if (a === undefined || a < 0 || a > 1) return NO; }
    const wantA = name.length === 4; if (wantA !== (p.length === 4)) return undefined;
    if (kind === "rgb") { const v = p.slice(0, 3); if (!v.every((x) => digits(x) && +x <= 255)) return NO; if (v.some((x) => x.length > 3)) return undefined; return yes({ r: +v[0], g: +v[1], b: +v[2], a }); }
    const h = p[0][0] === "-" ? (dnum(p[0].slice(1)) === undefined ? undefined : -dnum(p[0].slice(1))) : dnum(p[0]);
    if (h === undefined || !p[1].endsWith("%") || !p[2].endsWith("%")) return NO;
    const sa = dnum(p[1].slice(0, -1)), li = dnum(p[2].slice(0, -1)); if (sa === undefined || li === undefined || sa > 100 || li > 100) return NO;
    const [r, g, b] = hsl(h, sa / 100, li / 100); return yes({ r, g, b, a });
  }
  if (s.toLowerCase() === "transparent") return undefined;
  const n = Object.hasOwn(CSS, s.toLowerCase()) ? CSS[s.toLowerCase()] : undefined;
  return n && f.includes("named") ? yes({ r: n[0], g: n[1], b: n[2], a: 1 }) : NO;
}
const colorEq = (x, w) => x && ["r", "g", "b"].every((k) => Number.isInteger(x[k]) && Math.abs(x[k] - w[k]) <= 0.5 + 1e-6) && Math.abs(x.a - w.a) <= 0.5 / 255 + 1e-9 && (w.a === 1 ? x.a === 1 : true);
const colCfgs = [{}, ...FM.map((x) => ({ formats: [x] })), { formats: ["rgb", "named"] }, { formats: ["hsl", "hex"] }];
E.color = {
  configs: colCfgs, make: (A, c) => A.vp.color(c), oracle: OColor, eq: colorEq, eqFormat: (a, b) => J(a) === J(b),
  *inputs(c, q) {
    const hx = ["0", "1", "7", "a", "F"]; for (const n of [1, 2, 3, 4, 5, 7, 9]) for (const t of prod(...Array(Math.min(n, q ? 4 : 5)).fill(hx))) yield "#" + t.join("").padEnd(n, "b");
    for (const t of prod(["00", "7f", "fF", "0a"], ["00", "80", "ff"], ["00", "99", "Ff"], ["", "00", "80", "ff", "fe"])) yield "#" + t.join("");
    const ch = ["0", "1", "99", "127", "255", "256", "300", "-1", "1.5", "00", "025", "0255", "", "a", "50%"], al = [undefined, "0", "1", "0.5", ".5", "1.0", "1.1", "-0.1", "0.004", "0.996", "50%", "", "a"];
    for (const fn of ["rgb", "rgba", "RGB", "rgb "]) for (const [r, g] of prod(ch, ch)) for (const a of al) yield `${fn}(${r}, ${g},7${a === undefined ? "" : `, ${a}`})`;
    for (const b of ch) yield `rgb(1,2,${b})`;
    const hs = ["0", "59.9", "60", "120", "180", "240", "299", "300", "359", "360", "361", "720", "-60", "-360", "0.5", "a", ""], pc = ["0%", "1%", "33%", "50%", "66.6%", "99%", "100%", "101%", "100.1%", "-1%", "50", ""];
    for (const fn of ["hsl", "hsla", "HSL"]) for (const [h, s, l] of prod(hs, pc, pc)) yield `${fn}(${h}, ${s}, ${l}${fn === "hsla" ? ", 0.25" : ""})`;
    for (const a of al) yield `hsla(10, 20%,30%${a === undefined ? "" : "," + a})`;
    for (const n of Object.keys(CSS)) { yield n; yield n.toUpperCase(); yield n + "x"; yield n.slice(1); }
    for (const s of ["rgb(1,2,3)", "rgba(1, 2, 3, 0.5)", "hsl(1,2%,3%)", "#abc", "#abcdef", "red", "__proto__", "constructor", "toString"]) yield* mutations(s, ["0", "5", ",", ")", "(", "%", ".", "#", "a", "g", " ", "-"]);
  },
  *values(c, q) {
    if (c.formats?.length === 1 && c.formats[0] === "named") { for (const n of Object.values(CSS)) yield { r: n[0], g: n[1], b: n[2], a: 1 }; return; }
    const st = q ? 15 : 3, lv = []; for (let i = 0; i < 256; i += st) lv.push(i); for (const r of lv) for (const g of lv) for (const b of lv) yield { r, g, b, a: 1 };
    for (let i = 0; i < 256; i++) yield { r: i, g: 255 - i, b: (i * 7) % 256, a: i / 255 };
    for (let i = 0; i < 256; i++) { yield { r: i, g: 1, b: 254, a: 1 }; yield { r: 128, g: i, b: 129, a: 1 }; yield { r: i, g: i, b: i, a: 1 }; yield { r: 0, g: 1, b: i, a: 1 }; }
  },
};
// ---- json ----
const jt = (v) => v === null ? "null" : Array.isArray(v) ? "array" : typeof v;
const over = (v) => typeof v === "number" ? !Number.isFinite(v) : v && typeof v === "object" ? Object.values(v).some(over) : false;
const jeq = (a, b) => typeof a === "number" && typeof b === "number" ? a === b : a && b && typeof a === "object" && typeof b === "object" ? Array.isArray(a) === Array.isArray(b) && Object.keys(a).length === Object.keys(b).length && Object.keys(a).every((k) => Object.hasOwn(b, k) && jeq(a[k], b[k])) : a === b;
E.json = {
  configs: [{}, ...["string", "number", "boolean", "null", "object", "array"].map((rootType) => ({ rootType }))], make: (A, c) => A.vp.json(c), eq: jeq,
  *inputs(c, q) {
    yield* strings(["{", "}", "[", "]", '"', ":", ",", "1", "a"], q ? 5 : 6); yield* strings(["0", "-", ".", "e", "1", "+", " "], 5);
    const atoms = ["null", "true", "false", "0", "-0", "1.5e3", '""', '"a\\n\\u0041"', "[]", "{}", '{"__proto__":1}', "NaN", "1e999", "-1e400", "'a'", "undefined", "nul"];
    for (const a of atoms) { yield a; yield ` ${a}\n`; yield `[${a}]`; yield `{"k":${a}}`; yield `{"k":[${a},{"z":${a}}]}`; yield* mutations(a, [" ", '"', "\\", "1", "e", "\n", ","]); for (const b of atoms) yield `[${a},${b}]`; }
  },
  oracle(c, s) { let v; try { v = JSON.parse(s); } catch { return NO; } if (over(v)) return c.rootType && jt(v) !== c.rootType ? NO : undefined; return c.rootType && jt(v) !== c.rootType ? NO : yes(v); },
};
// ---- cron ----
const MON = "jan feb mar apr may jun jul aug sep oct nov dec".split(" "), DAY = "sun mon tue wed thu fri sat".split(" ");
const FIELD = { second: [0, 59], minute: [0, 59], hour: [0, 23], dayOfMonth: [1, 31], month: [1, 12], dayOfWeek: [0, 7], year: [1970, 2099] };
function atom(k, t) { const n = k === "month" ? MON.indexOf(t.toLowerCase()) + 1 || undefined : k === "dayOfWeek" && DAY.includes(t.toLowerCase()) ? DAY.indexOf(t.toLowerCase()) : undefined; if (n !== undefined) return n; if (!digits(t)) return; const v = +t; return v >= FIELD[k][0] && v <= FIELD[k][1] ? v : undefined; }
function field(k, f, quartz) { // true | false | undefined (not specified)
  if (quartz) {
    const u = f.toUpperCase();
    if (k === "dayOfMonth" && (["?", "L", "LW"].includes(u) || /^[0-9]{1,2}W$/.test(u) && atom(k, u.slice(0, -1)) !== undefined)) return true;
    const d = (t) => digits(t) && t.length === 1 ? +t >= 1 && +t <= 7 : DAY.includes(t.toLowerCase());
    if (k === "dayOfWeek" && (["?", "L"].includes(u) || u.length > 1 && u.at(-1) === "L" && d(u.slice(0, -1)) || u.includes("#") && d(u.split("#")[0]) && /^[1-5]$/.test(u.split("#").slice(1).join("#")))) return true;
  }
  let unspec = false;
  for (const part of f.split(",")) {
    const [base, step, ...x] = part.split("/"); if (x.length || step !== undefined && !(digits(step) && +step > 0)) return false;
    if (base === "*") continue;
    const [a, b, ...y] = base.split("-"); if (y.length) return false;
    const lo = atom(k, a); if (lo === undefined) return false;
    if (b === undefined) { if (step !== undefined) unspec = true; continue; }
    let hi = atom(k, b); if (hi === undefined) return false;
    if (k === "dayOfWeek" && hi === 0 && lo !== 0) hi = 7; // Sunday closes a range
    if (k === "dayOfWeek" && hi === 0 && a.toLowerCase() === "0" && b === "0") hi = 0;
    if (k === "dayOfWeek" && lo === 0 && hi === 0 && a.toLowerCase() !== b.toLowerCase()) { unspec = true; continue; }
    if (lo > hi) return false;
    if (k === "dayOfWeek" && lo === 0 && a === "0" && b === "0") unspec = true;
  }
  return unspec ? undefined : true;
}
function OCron(c, s) {
  const f = s.split(/ +/).filter((x) => x !== ""), names = [...(c.seconds ? ["second"] : []), "minute", "hour", "dayOfMonth", "month", "dayOfWeek", ...(c.years ? ["year"] : [])];
  if (/[^\x20-\x7e]/.test(s)) return undefined;
  if (f.length !== names.length) return NO;
  const r = names.map((k, i) => field(k, f[i], c.quartz)); if (r.includes(false)) return NO; if (r.includes(undefined)) return undefined;
  const v = Object.fromEntries(names.map((k, i) => [k, f[i]])); if (c.quartz && v.dayOfMonth === "?" && v.dayOfWeek === "?") return NO;
  return yes(v);
}
const cronCfg = prod([undefined, true], [undefined, true], [undefined, true]).map(([seconds, years, quartz]) => ({ ...(seconds && { seconds }), ...(years && { years }), ...(quartz && { quartz }) }));
E.cron = {
  configs: cronCfg, make: (A, c) => A.vp.cron(c), oracle: OCron,
  *inputs(c, q) {
    const names = [...(c.seconds ? ["second"] : []), "minute", "hour", "dayOfMonth", "month", "dayOfWeek", ...(c.years ? ["year"] : [])], base = names.map(() => "*");
    const put = (i, t) => { const b = [...base]; b[i] = t; return b.join(" "); };
    for (let i = 0; i < names.length; i++) {
      const [lo, hi] = FIELD[names[i]], at = [...new Set([lo - 1, lo, lo + 1, hi - 1, hi, hi + 1, 0, 7, 8, 5].filter((x) => x >= 0))].map(String);
      if (names[i] === "month") at.push(...MON.slice(0, q ? 3 : 12), "DEC", "Dec", "janu", "mon"); if (names[i] === "dayOfWeek") at.push(...DAY, "SUN", "Sat", "jan", "sund"); at.push("", "-1", "1.5", "x", "01", "?", "L", "LW", "W");
      for (const a of at) { yield put(i, a); for (const st of ["/1", "/0", "/", "/5", "/x", "/1/2", "/-1", "/00", "/60"]) { yield put(i, "*" + st); yield put(i, a + st); yield put(i, `${lo}-${a}${st}`); } yield put(i, a + ",*"); yield put(i, "*," + a); yield put(i, a + ","); yield put(i, "," + a); }
      for (const [a, b] of prod(at, at)) { yield put(i, `${a}-${b}`); yield put(i, `${a},${b}`); yield put(i, `${a}-${b}/2,${b}`); }
      for (const [d, x] of prod(["1", "7", "0", "8", "15", "31", "32", "sun", "SAT", "x", ""], ["L", "l", "W", "w", "#0", "#1", "#5", "#6", "#", "#1#2", "LW"])) yield put(i, d + x);
      for (let v = lo - 2; v <= hi + 2; v++) if (v >= 0) yield put(i, String(v));
    }
    for (let n = 0; n <= 9; n++) { yield Array(n).fill("*").join(" "); yield Array(n).fill("1").join("  "); yield " " + Array(n).fill("1").join(" ") + " "; }
    const m = names.indexOf("dayOfMonth"), w = names.indexOf("dayOfWeek"); for (const [a, b] of prod(["?", "L", "LW", "15W", "1", "*"], ["?", "L", "6L", "fri#2", "1", "*"])) { const t = [...base]; t[m] = a; t[w] = b; yield t.join(" "); }
    yield* mutations(names.map((k) => k === "year" ? "2026" : k === "dayOfWeek" ? "MON-FRI" : k === "month" ? "JAN,3" : "1-5/2").join(" "), ["*", "/", "-", ",", "0", "9", " ", "A", "?"]);
  },
};
// ---- locale / uuid / semVer ----
E.locale = {
  configs: [{}], make: (A, c) => A.vp.locale(c), eq: (a, b) => a instanceof Intl.Locale && a.toString() === b.toString(), show: (v) => String(v),
  *inputs(c, q) {
    yield* strings(["e", "n", "-", "U", "1", "x"], q ? 6 : 7);
    for (const t of prod(["en", "EN", "eng", "e", "abcdefgh", "abcdefghi", "und", "x", "i"], ["", "-Latn", "-lat", "-419", "-US", "-us", "-x-a"], ["", "-US", "-41", "-posix", "-u-ca-gregory", "-u", "-t-fr", "-a-b1-a-b2", "_US"])) yield t.join("");
    for (const s of ["en-US", "zh-Hant-TW", "de-u-co-phonebk", " en", "en ", "en_US", ""]) yield* mutations(s, ["-", "_", "a", "1", " "]);
  },
  oracle(c, s) { try { return yes(new Intl.Locale(s)); } catch { return NO; } },
};
const NIL = "00000000-0000-0000-0000-000000000000", MAX = "ffffffff-ffff-ffff-ffff-ffffffffffff";
function OUuid(c, s) {
  const p = s.split("-"); if (p.length !== 5 || p.map((x) => x.length).join() !== "8,4,4,4,12" || !p.every(hexd)) return NO;
  const l = s.toLowerCase(); if (l === NIL || l === MAX) return yes(s);
  const v = parseInt(p[2][0], 16), strict = c.strict !== false;
  if (c.allowedVersions ? !c.allowedVersions.includes(v) : strict && (v < 1 || v > 8)) return NO;
  return strict && !"89ab".includes(p[3][0].toLowerCase()) ? NO : yes(s);
}
E.uuid = {
  configs: [{}, { strict: true }, { strict: false }, ...[1, 2, 3, 4, 5, 6, 7, 8].map((v) => ({ allowedVersions: [v] })), { allowedVersions: [1, 4, 7] }, { allowedVersions: [4], strict: false }],
  make: (A, c) => A.vp.uuid(c), oracle: OUuid,
  *inputs(c, q) {
    const hx = [..."0123456789abcdefABCDEFgG -"]; for (const [a, b] of prod(hx, hx)) { yield `550e8400-e29b-${a}1d4-${b}716-446655440000`; yield `00000000-0000-${a}000-${b}000-000000000000`; yield `ffffffff-ffff-${a}fff-${b}fff-ffffffffffff`; }
    for (const s of [NIL, MAX, MAX.toUpperCase(), "550e8400-e29b-41d4-a716-446655440000", "550E8400-E29B-71D4-B716-446655440000"]) { yield* mutations(s, ["0", "f", "g", "-", " ", "F"]); yield `{${s}}`; yield "urn:uuid:" + s; yield s.replaceAll("-", ""); yield s + "\n"; yield s + "-" + s; }
  },
};
function OSem(c, s) {
  let t = s; if (t[0] === "v") { if (!c.allowPrefix) return NO; t = t.slice(1); }
  const k = t.indexOf("+"), meta = k < 0 ? undefined : t.slice(k + 1), m = k < 0 ? t : t.slice(0, k), j = m.indexOf("-"), pre = j < 0 ? undefined : m.slice(j + 1), core = (j < 0 ? m : m.slice(0, j)).split(".");
  const num = (x) => digits(x) && (x === "0" || x[0] !== "0"), id = (x) => x.length > 0 && [...x].every((ch) => isD(ch) || ch >= "a" && ch <= "z" || ch >= "A" && ch <= "Z" || ch === "-");
  if (core.length !== 3 || !core.every(num) || pre !== undefined && !pre.split(".").every((x) => id(x) && (!digits(x) || num(x))) || meta !== undefined && !meta.split(".").every(id)) return NO;
  if (c.type !== "object") return yes(t);
  if (core.some((x) => BigInt(x) > 9007199254740991n)) return NO;
  return yes({ major: +core[0], minor: +core[1], patch: +core[2], ...(pre !== undefined && { preRelease: pre }), ...(meta !== undefined && { metadata: meta }) });
}
E.semVer = {
  configs: prod([undefined, "string", "object"], [undefined, true, false]).map(([type, allowPrefix]) => ({ ...(type && { type }), ...(allowPrefix !== undefined && { allowPrefix }) })), make: (A, c) => A.vp.semVer(c), oracle: OSem,
  *inputs(c, q) {
    const al = ["0", "1", ".", "-", "+", "a", "v"]; yield* strings(al, q ? 6 : 7);
    const tail = ["", "-", "-0", "-00", "-01", "-0a", "-a", "-a.b", "-a..b", "-a.", "-.a", "--", "-a-b", "-1.0", "-1.01", "+", "+0", "+00", "+a", "+a.b", "+a.", "+.a", "+a+b", "+-", "-a+b", "-a+b.00", "+b-a", "-é", "+_"];
    for (const [p, m, n, t] of prod(["", "v", "V", "vv", "="], ["0", "1", "01", "10", "9007199254740991", "9007199254740992", "99999999999999999999", ""], ["0.0", "1.2", "01.2", "1.02", "9007199254740991.1", "1.9007199254740993", "1", "1.2.3", "-1.0"], tail)) yield `${p}${m}.${n}${t}`;
    yield* mutations("1.2.3-alpha.1+build.01", [...al, " ", "\n", "_", "B"]); yield* mutations("v10.20.30", al);
  },
};
// ---- keyValue ----
const kids = { str: [(A) => undefined, (s) => yes(s)], int: [(A) => A.vp.integer({ min: 0 }), (s) => digits(s) && s.length < 10 ? yes(+s) : /^[+-]?[0-9]*$/.test(s) && s[0] !== "-" ? undefined : /^-0+$/.test(s) ? undefined : NO], ab: [(A) => A.vp.choice(["a", "b=", "=1"]), (s) => ["a", "b=", "=1"].includes(s) ? yes(s) : NO] };
E.keyValue = {
  configs: prod([undefined, "=", ":", "==", "aa", " "], [undefined, "first", "last"], [undefined, true], [undefined, false], ["str", "int", "ab"]).filter(([sep, , , , k]) => k === "str" || sep === undefined).flatMap(([separator, split, ek, ev, k]) => (k === "str" ? [["str", "str"]] : k === "int" ? [["str", "int"], ["int", "str"]] : [["ab", "str"], ["str", "ab"]]).map(([key, value]) => ({ ...(separator && { separator }), ...(split && { split }), ...(ek && { allowEmptyKey: true }), ...(ev === false && { allowEmptyValue: false }), key, value }))),
  make: (A, { key, value, ...c }) => A.vp.keyValue({ ...c, ...(key !== "str" && { key: kids[key][0](A) }), ...(value !== "str" && { value: kids[value][0](A) }) }),
  *inputs(c, q) { const sep = c.separator ?? "="; yield* strings([...new Set(["a", "b", "1", sep, sep[0], " "])], q ? 5 : 6); for (const s of ["a=1", "key=value", "k:v", "a==b", "=", "==", "\n=\n", "b==1", "a==1", "=1=a"]) yield* mutations(s, ["a", "=", ":", " ", "1"]); },
  oracle(c, s) {
    const sep = c.separator ?? "=", i = c.split === "last" ? s.lastIndexOf(sep) : s.indexOf(sep); if (i < 0) return NO;
    const k = s.slice(0, i), v = s.slice(i + sep.length); if (k === "" && !c.allowEmptyKey || v === "" && c.allowEmptyValue === false) return NO;
    const rk = kids[c.key][1](k), rv = kids[c.value][1](v); if (rk && !rk.ok || rv && !rv.ok) return NO; if (!rk || !rv) return undefined;
    if (c.split !== "last" && c.key === "ab" && k.includes(sep) || c.split === "last" && c.value === "ab" && v.includes(sep)) return undefined;
    return yes([rk.v, rv.v]);
  },
};
// ---- firstOf / biject / transform ----
const parts = {
  int5: [(A) => A.vp.integer({ min: 0, max: 5 }), (s) => digits(s) ? (+s <= 5 ? yes(+s) : NO) : /^[+-][0-9]+$/.test(s) ? undefined : NO],
  int: [(A) => A.vp.integer({ min: 0 }), (s) => digits(s) ? yes(+s) : /^[+-][0-9]+$/.test(s) ? undefined : NO],
  on: [(A) => A.vp.choice(["on", "off", "1"]), (s) => ["on", "off", "1"].includes(s) ? yes(s) : NO],
  abc: [(A) => A.vp.string({ pattern: /^[abc]+$/ }), (s) => s.length > 0 && [...s].every((ch) => "abc".includes(ch)) ? yes(s) : NO],
  any: [(A) => A.vp.string(), (s) => yes(s)],
  bool: [(A) => A.vp.biject({ yes: true, no: false, "1": null }), (s) => s === "yes" ? yes(true) : s === "no" ? yes(false) : s === "1" ? yes(null) : NO],
};
E.firstOf = {
  configs: [...prod(Object.keys(parts), Object.keys(parts)), ...prod(Object.keys(parts), Object.keys(parts), Object.keys(parts))].flatMap((l) => [{ l }, { l, arr: 1 }, ...(l.length === 3 ? [{ l, nest: 1 }] : [])]).filter((c) => c.l.length === 2 || c.nest || !c.arr),
  make: (A, c) => { const ps = c.l.map((k) => parts[k][0](A)); return c.nest ? A.vp.firstOf(ps[0], A.vp.firstOf(ps[1], ps[2])) : c.arr ? A.vp.firstOf(ps) : A.vp.firstOf(...ps); },
  *inputs() { yield* strings(["o", "n", "1", "7", "a", "-", "c"], 3); for (const s of ["on", "off", "yes", "no", "5", "6", "abc"]) yield* mutations(s, ["f", "o", "1", "s"]); },
  oracle: (c, s) => { for (const k of c.l) { const r = parts[k][1](s); if (!r) return undefined; if (r.ok) return r; } return NO; },
  noFormatFor: (c) => c.l.some((k, i) => c.l.some((m, j) => i < j && ((k === "on" || k === "bool" || k === "any") || (m === "on" || m === "bool") && k !== "abc"))),
};
const maps = [{ ok: 0, err: 1 }, { ok: null, no: undefined, "": undefined }, { toString: 1, __proto: 2, constructor: 3 }, { nan: NaN, zero: 0 }, { "1": "one", "01": "uno", one: "1" }, { A: "a", a: "A" }].map((m) => { const x = { ...m }; delete x[""]; return x; });
E.biject = {
  configs: maps.map((m) => ({ m })), make: (A, c) => A.vp.biject(c.m),
  *inputs(c) { for (const k of [...Object.keys(c.m), ...Object.values(c.m).map(String), "valueOf", "__proto__", ""]) yield* mutations(k, ["o", "1", "A", " "]); },
  oracle: (c, s) => Object.hasOwn(c.m, s) ? yes(c.m[s]) : NO,
};
const tmaps = { dbl: ["int", (n) => n * 2, (n) => n / 2], up: ["abc", (s) => ({ s: s.toUpperCase() }), (o) => o.s.toLowerCase()], idx: ["on", (s) => ["on", "off", "1"].indexOf(s), (i) => ["on", "off", "1"][i]] };
E.transform = {
  configs: Object.keys(tmaps).flatMap((t) => [{ t }, { t, twice: 1 }]),
  make: (A, c) => { const [k, map, unmap] = tmaps[c.t], p = A.vp.transform(parts[k][0](A), { map, unmap }); return c.twice ? A.vp.transform(p, { map: (v) => [v], unmap: ([v]) => v }) : p; },
  inputs: () => strings(["0", "1", "a", "c", "o", "n", "f"], 4),
  oracle: (c, s) => { const [k, map] = tmaps[c.t], r = parts[k][1](s); return !r || !r.ok ? r : yes(c.twice ? [map(r.v)] : map(r.v)); },
};
export async function run(ctx) { const A = await api(ctx); await runAll(ctx, A, E); }
export async function replay(ctx, d) { await replayOne(ctx, await api(ctx), E, d); }

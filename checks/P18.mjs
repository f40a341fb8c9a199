// P18: temporal value parsers on every composition of boundary components and
// their near-misses. Shape is decided by a hand-written reader of the documented
// forms, dates and instants by own calendar arithmetic, the rest by Temporal.
import { NO, yes, runAll, replayOne, strings, mutations, prod } from "../lib/vp.mjs";
export const meta = {
  rule: "an input string for a parser",
  assumptions: ["several bracketed annotations, and a day given to year-month or a year given to month-day with the ISO calendar, are not specified", "the zone names the runtime knows are taken from Intl.DateTimeFormat; the single-word zones are the documented list",
    "for text of the documented form, Temporal itself decides acceptance; results are also compared with own arithmetic for ISO dates, times and instants"],
};
const T = globalThis.Temporal ?? {}, isD = (c) => c >= "0" && c <= "9", digs = (s, n) => s.length === n && [...s].every(isD);
// ---- reader: [what it contains, iso fields] ----
function readDate(s) { // full date -> [y, m, d]
  let i = 4; if (s[0] === "+" || s[0] === "-") i = 7;
  const y = s.slice(0, i), r = s.slice(i); if (i === 4 ? !digs(y, 4) : !digs(y.slice(1), 6) || y === "-000000") return;
  if (r.length === 6 && r[0] === "-" && r[3] === "-" && digs(r.slice(1, 3), 2) && digs(r.slice(4), 2)) return [+y, +r.slice(1, 3), +r.slice(4)];
  if (digs(r, 4)) return [+y, +r.slice(0, 2), +r.slice(2)];
}
function readYM(s) { let i = 4; if (s[0] === "+" || s[0] === "-") i = 7; const y = s.slice(0, i), r = s.slice(i); if (i === 4 ? !digs(y, 4) : !digs(y.slice(1), 6) || y === "-000000") return; if (r[0] === "-" && digs(r.slice(1), 2)) return [+y, +r.slice(1)]; if (digs(r, 2)) return [+y, +r]; }
function readMD(s) { if (s.startsWith("--")) s = s.slice(2); if (s.length === 5 && s[2] === "-" && digs(s.slice(0, 2), 2) && digs(s.slice(3), 2)) return [+s.slice(0, 2), +s.slice(3)]; if (digs(s, 4)) return [+s.slice(0, 2), +s.slice(2)]; }
function readTime(s) { // -> [h, m, s, ns]
  const k = s.search(/[.,]/), f = k < 0 ? "" : s.slice(k + 1), b = k < 0 ? s : s.slice(0, k); if (k >= 0 && (f.length < 1 || f.length > 9 || !digs(f, f.length))) return;
  let p = b.includes(":") ? b.split(":") : [b.slice(0, 2), b.slice(2, 4), b.slice(4)].filter((x, i) => i === 0 || x !== "");
  if (!b.includes(":") && ![2, 4, 6].includes(b.length)) return; if (p.length > 3 || b.includes(":") && p.length < 2 || !p.every((x) => digs(x, 2)) || k >= 0 && p.length < 3) return;
  const [h, m = 0, sec = 0] = p.map(Number); if (h > 23 || m > 59 || sec > 60) return; return [h, m, Math.min(sec, 59), +f.padEnd(9, "0")];
}
const dim = (y, m) => m === 2 ? (y % 4 === 0 && y % 100 !== 0 || y % 400 === 0 ? 29 : 28) : [4, 6, 9, 11].includes(m) ? 30 : 31;
const okDate = ([y, m, d]) => m >= 1 && m <= 12 && d >= 1 && d <= dim(y, m);
function epochDays(y, m, d) { let n = 0n; const a = BigInt(m <= 2 ? y - 1 : y), era = (a >= 0n ? a : a - 399n) / 400n, yoe = a - era * 400n, mp = BigInt((m + 9) % 12), doy = (153n * mp + 2n) / 5n + BigInt(d) - 1n, doe = yoe * 365n + yoe / 4n - yoe / 100n + doy; n = era * 146097n + doe - 719468n; return n; }
function cal(s) { // split a trailing calendar annotation -> [body, calendar | undefined] or null when there is something else in brackets
  const k = s.indexOf("["); if (k < 0) return [s, undefined]; const a = s.slice(k); const m = /^\[!?u-ca=([a-zA-Z0-9-]+)\]$/.exec(a); return m ? [s.slice(0, k), m[1].toLowerCase()] : /\]\[/.test(a) && /^(\[!?[^\[\]]+\])+$/.test(a) ? undefined : null;
}
const via = (f) => { try { return yes(f()); } catch { return NO; } };
const tEq = (a, b) => a?.constructor === b?.constructor && String(a) === String(b);
const plain = (cls, read, full) => (c, s) => {
  const k = cal(s); if (k === undefined) return undefined; if (k === null) return NO;
  const [b, ca] = k, f = read(b);
  if (!f) { if (full && ca && readDate(b)) return ca === "iso8601" ? undefined : via(() => cls.from(s)); return NO; }
  return { f, ca, r: via(() => cls.from(s)) };
};
const judged = (cls, read, own, full) => (c, s) => {
  const x = plain(cls, read, full)(c, s); if (!x || x.ok !== undefined) return x;
  if (x.ca === undefined || x.ca === "iso8601") { const w = own(x.f, s); if (w === undefined) return x.r; if (w.ok !== x.r.ok || w.ok && !tEq(w.v, x.r.v)) throw new Error(`own arithmetic and Temporal disagree on ${s}`); }
  return x.r;
};
const inDay = (d, from, to) => { const n = epochDays(...d); return n >= epochDays(...from) && n <= epochDays(...to); };
const ownDate = (f) => okDate(f) && inDay(f, [-271821, 4, 19], [275760, 9, 13]) ? yes(new T.PlainDate(...f)) : NO;
const timeOf = ([h, m, s, ns]) => new T.PlainTime(h, m, s, Math.floor(ns / 1e6), Math.floor(ns / 1e3) % 1000, ns % 1000);
const readT = (s) => readTime(/^[Tt]/.test(s) ? s.slice(1) : s);
const readDT = (s) => { const k = s.search(/[Tt ]/); if (k < 0) return; const d = readDate(s.slice(0, k)), t = readTime(s.slice(k + 1)); return d && t ? [d, t] : undefined; };
const Y = ["2024", "2023", "1900", "2000", "0000", "9999", "+002024", "-000001", "-000000", "+275760", "-271821", "+275761", "-271822", "24", "02024"], M = ["01", "02", "04", "09", "12", "00", "13", "2"], D = ["01", "28", "29", "30", "31", "00", "32", "13", "19", "1"];
const TM = ["00", "23", "24", "7", "0000", "2359", "2360", "10:30", "23:59", "24:00", "10:60", "1:30", "10:30:00", "10:30:59", "10:30:60", "10:30:61", "103000", "10:3000", "10:30:00.1", "10:30:00.123456789", "10:30:00,5", "10:30:00.", "10:30:00.1234567890", "103000.25", "10:30.5", "1030.5", "", "1:2:3"];
const OFF = ["", "Z", "z", "+00:00", "-00:00", "+09:00", "-05", "+0530", "+05:30:15", "+23:59", "+24:00", "+9:00", "-05:60", " Z"], ANN = ["", "[UTC]", "[Asia/Seoul]", "[!Asia/Seoul]", "[+09:00]", "[America/New_York]", "[Nowhere/Land]", "[u-ca=gregory]", "[UTC][u-ca=gregory]", "[]", "[asia/seoul]", "[utc]"], CAL = ["", "[u-ca=iso8601]", "[!u-ca=gregory]", "[u-ca=hebrew]", "[u-ca=nope]", "[u-ca=Gregory]", "[foo=bar]", "[UTC]", "[u-ca=]", "[u-ca=iso8601][u-ca=gregory]"];
const MUT = ["0", "1", "9", "-", ":", "T", "Z", "+", " ", "[", ".", "P", "\u2212"];
function* dates(q) { for (const [y, m, d] of prod(Y, M, D)) { yield `${y}-${m}-${d}`; yield y + m + d; yield `${y}-${m}${d}`; yield `${y}${m}-${d}`; } }
function* extras(s) { for (const x of ["T10:30", " 10:30:00", "Z", "+09:00", "T00:00Z", "T10:30+09:00[Asia/Seoul]", ...CAL]) yield s + x; }
const E = {};
const entry = (name, oracle, inputs, eq = tEq) => { E[name] = { configs: [{}, { metavar: "X" }], make: (A, c) => A[name](c), oracle, eq, show: String, *inputs(c, q) { if (c.metavar) { let n = 0; for (const s of inputs(true)) if (++n % 37 === 0) yield s; } else yield* inputs(q); } }; };
entry("plainDate", judged(T.PlainDate, readDate, ownDate), function* (q) { yield* dates(q); for (const s of ["2024-02-29", "20231225", "-000001-12-31", "2023-12"]) { yield* extras(s); yield* mutations(s, MUT); for (const x of mutations(s + "[u-ca=gregory]", MUT)) yield x; } for (const s of TM) yield s; });
entry("plainTime", judged(T.PlainTime, readT, (f, s) => /^[Tt]|:/.test(s) ? yes(timeOf(f)) : undefined), function* (q) { for (const p of ["", "T", "t", " "]) for (const t of TM) for (const x of [...OFF, ...CAL]) yield p + t + x; yield* strings(["0", "1", "2", "5", ":"], q ? 5 : 6); for (let h = 0; h < 26; h++) for (let m = 0; m < 62; m += q ? 7 : 1) yield `${String(h).padStart(2, "0")}:${String(m).padStart(2, "0")}`; for (const d of ["2024-02-29T", "2024-02-29 ", "20240229T", "12-25T"]) for (const t of TM) yield d + t; for (const s of ["10:30:15.5", "T103015", "10:30[u-ca=gregory]"]) yield* mutations(s, MUT); });
entry("plainDateTime", judged(T.PlainDateTime, readDT, ([d, t]) => !okDate(d) ? NO : d[0] === -271821 && d[1] === 4 && d[2] === 19 && t.every((x) => x === 0) || !inDay(d, [-271821, 4, 19], [275760, 9, 13]) ? NO : yes(new T.PlainDate(...d).toPlainDateTime(timeOf(t)))), function* (q) { for (const [y, m, d] of prod(Y, M.slice(0, q ? 5 : 8), ["01", "19", "29", "31", "00"])) for (const t of ["00", "10:30", "23:59:60", "24:00", "103000.5"]) for (const sep of ["T", "t", " ", "", "_", "  "]) yield `${y}-${m}-${d}${sep}${t}`; for (const t of TM) for (const x of [...OFF, ...ANN, ...CAL]) { yield "2024-02-29T" + t + x; yield "20240229 " + t + x; } for (const s of ["2023-12-25T10:30:00", "20231225 103000.5", "2023-12-25T10:30[u-ca=gregory]"]) yield* mutations(s, MUT); yield* dates(q); });
entry("plainYearMonth", judged(T.PlainYearMonth, readYM, ([y, m]) => m >= 1 && m <= 12 && y * 12 + m >= -271821 * 12 + 4 && y * 12 + m <= 275760 * 12 + 9 ? yes(new T.PlainYearMonth(y, m)) : NO, true), function* (q) { for (const [y, m] of prod(Y, [...M, "03", "04", "10", "11"])) for (const x of ["", "-01", "-31", "01", ...CAL]) { yield `${y}-${m}${x}`; yield y + m + x; for (const c of CAL) yield `${y}-${m}${x}${c}`; } for (const s of ["2023-12", "202312", "-000001-01", "2023-12-01[u-ca=gregory]"]) { yield* extras(s); yield* mutations(s, MUT); } });
entry("plainMonthDay", judged(T.PlainMonthDay, readMD, ([m, d]) => m >= 1 && m <= 12 && d >= 1 && d <= dim(2000, m) ? yes(new T.PlainMonthDay(m, d)) : NO, true), function* (q) { for (let m = 0; m < 14; m++) for (let d = 0; d < 33; d++) { const a = String(m).padStart(2, "0"), b = String(d).padStart(2, "0"); for (const s of [`${a}-${b}`, a + b, `--${a}-${b}`, `--${a}${b}`, `-${a}-${b}`, `1972-${a}-${b}`, `2023-${a}-${b}`]) { yield s; if (d > 26 || d === 1) for (const c of CAL) yield s + c; } } for (const s of ["12-25", "--12-25", "1225", "1972-12-25[u-ca=gregory]"]) { yield* extras(s); yield* mutations(s, MUT); } });
const dts = function* (q) { for (const [d, t, o, a] of prod(["2024-02-29", "20231225", "2023-02-29", "1969-12-31", "-271821-04-20", "+275760-09-13", "2024-03-10", "2024-11-03", "0000-01-01", "2016-12-31", "2024-13-01"], ["T00:00", "T02:30:00", "t23:59:60", " 01:30:00.123456789", "T24:00", "", "T10"], OFF, ANN)) yield d + t + o + a; for (const s of ["2023-12-25T10:30:00Z", "2023-12-25T10:30:00.5+09:00", "2023-12-25T10:30[Asia/Seoul]", "2023-12-25T10:30:00+09:00[Asia/Seoul]"]) yield* mutations(s, MUT); yield* TM; yield ""; yield "1703500200"; };
entry("instant", (c, s) => {
  const r = via(() => T.Instant.from(s)), b = s.indexOf("[") < 0 ? s : null, m = b && /^(.*?)([Tt ])([0-9:.,]+)(Z|z|[+-].*)$/.exec(b);
  if (r.ok && m) { // own arithmetic
    const d = readDate(m[1]), t = readTime(m[3]); let off = 0n; if (m[4].length > 1) { const o = readTime(m[4].slice(1)); off = BigInt((o[0] * 3600 + o[1] * 60 + o[2]) * (m[4][0] === "-" ? -1 : 1)); }
    const ns = ((epochDays(...d) * 86400n + BigInt(t[0] * 3600 + t[1] * 60 + t[2]) - off) * 1000000000n) + BigInt(t[3]);
    if (r.v.epochNanoseconds !== ns) throw new Error(`own arithmetic and Temporal disagree on ${s}`);
  }
  return r;
}, dts);
entry("zonedDateTime", (c, s) => via(() => T.ZonedDateTime.from(s)), dts);
E.zonedDateTime.noFormatIf = (v) => { try { T.ZonedDateTime.from(String(v)); return false; } catch { return true; } }; // at the very limit Temporal cannot read back its own text
entry("duration", (c, s) => via(() => T.Duration.from(s)), function* (q) {
  for (const [sg, y, m, w, d] of prod(["", "-", "+", "\u2212"], ["", "1Y", "0Y", "1.5Y"], ["", "2M", "-1M"], ["", "3W"], ["", "4D", "400D", "4d"])) for (const t of ["", "T", "T5H", "T1H30M", "T30M", "T6S", "T0.123S", "T0,5S", "T1.5H", "T1.5M", "T1.5H1M", "T1.1234567891S", "t1h", "T1S1M", "T99999999999999999S", "T9007199254740992S", "T1H1H"]) { yield `${sg}P${y}${m}${w}${d}${t}`; yield `${sg}p${y}${m}${w}${d}${t}`; }
  yield* strings(["P", "T", "1", "H", "M", "S", "D", "."], q ? 4 : 6); for (const s of ["PT1H30M", "P1Y2M3DT4H5M6S", "-PT0.123S"]) yield* mutations(s, MUT); yield "P4294967295Y"; yield "P4294967296Y"; yield "PT9007199254740991.999999999S";
}, (a, b) => tEq(a, b) || false);
const SINGLE = "UTC GMT GMT0 GMT+0 GMT-0 UCT Universal Greenwich Zulu EST MST HST Cuba Egypt Eire GB GB-Eire Hongkong Iceland Iran Israel Jamaica Japan Kwajalein Libya Navajo NZ NZ-CHAT Poland Portugal PRC ROC ROK Singapore Turkey W-SU".split(" ");
const BANNED = ["CET", "MET", "WET", "EET", "EST5EDT", "CST6CDT", "MST7MDT", "PST8PDT"], KNOWN = [...new Set([...Intl.supportedValuesOf("timeZone"), "Etc/UTC", "Etc/GMT+5", "US/Pacific", "America/Argentina/Buenos_Aires", "Asia/Calcutta", "Europe/Kiev", "Asia/Katmandu", "Brazil/East"])];
entry("timeZone", (c, s) => { if (!s.includes("/")) { const z = SINGLE.find((x) => x.toLowerCase() === s.toLowerCase()); return z ? yes(z) : NO; } try { new Intl.DateTimeFormat("en", { timeZone: s }); return yes(s); } catch { return NO; } }, function* (q) {
  for (const z of [...SINGLE, ...BANNED, "Factory", "local", "GMT+1", "Etc", "+09:00", "-05", "Z", "z", "", "/", "Asia", "Seoul"]) { yield* mutations(z, ["/", "0", "A", "-", " "]); yield z.toLowerCase(); yield z.toUpperCase(); }
  for (const z of KNOWN) { yield z; yield z.toLowerCase(); yield z.toUpperCase(); yield z + "x"; yield z + "/"; yield " " + z; yield z.replace("/", "//"); yield z.split("/").at(-1); yield `2020-01-01T00:00[${z}]`; yield `2020-01-01T00:00:00+00:00[${z}]`; yield `[${z}]`; if (!q) yield* mutations(z, ["/", "_", "A"]); }
  for (const z of ["Asia/Seoul", "America/Argentina/Buenos_Aires"]) yield* mutations(z, ["/", "_", "A", "é", " ", "+", "[", "]"]);
}, (a, b) => a === b);
export async function run(ctx) {
  const A = await ctx.load("temporal/src/index.js"); await runAll(ctx, A, E);
  const tz = A.timeZone(); // suggestions: accepted, matching, complete
  for (const p of ["", "a", "A", "Asia/", "asia/s", "u", "UTC", "gm", "zz", "America/Argentina/"]) if (ctx.next()) sug(ctx, tz, { sug: p });
}
function sug(ctx, tz, d) {
  const got = [...tz.suggest(d.sug)].map((x) => x.text), lo = d.sug.toLowerCase(); ctx.state(); ctx.transition(); ctx.exec(); ctx.outcome("suggest"); ctx.distinct("sug" + d.sug);
  const fail = (m) => ctx.violation(`sug ${d.sug}`, `timeZone().suggest(${JSON.stringify(d.sug)}): ${m}`, d, 3);
  for (const t of got) { if (!t.toLowerCase().startsWith(lo)) fail(`${t} does not match`); const r = tz.parse(t); if (!r.success) fail(`${t} is not accepted`); }
  for (const z of [...Intl.supportedValuesOf("timeZone"), "UTC", "GMT"]) if (z.toLowerCase().startsWith(lo) && !got.includes(z)) fail(`${z} is missing`);
  if (new Set(got).size !== got.length) fail("repeats a zone");
}
export async function replay(ctx, d) { const A = await ctx.load("temporal/src/index.js"); if (d.sug !== undefined) sug(ctx, A.timeZone(), d); else await replayOne(ctx, A, E, d); }

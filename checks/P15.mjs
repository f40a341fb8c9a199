// P15: network value parsers on every composition of boundary components and
// every near-miss of representative addresses, against independent recognisers.
import { api } from "../lib/prog.mjs";
import { NO, yes, runAll, replayOne, strings, mutations, prod } from "../lib/vp.mjs";
export const meta = {
  rule: "an input string under a configuration, or a value under a configuration",
  assumptions: ["surrounding white space, backslashes in quoted parts, several quoted words in display names, dotted numeric host names that are not four octets, and hexadecimal or octal host spellings are not specified", "host names of four decimal labels are read as IPv4 addresses and never as names"],
};
const FLAGS4 = ["allowPrivate", "allowLoopback", "allowLinkLocal", "allowMulticast", "allowBroadcast", "allowZero"], FLAGS6 = ["allowLoopback", "allowLinkLocal", "allowUniqueLocal", "allowMulticast", "allowZero"];
const subsets = (fs) => prod(...fs.map(() => [undefined, false])).map((t) => Object.fromEntries(fs.flatMap((f, i) => t[i] === undefined ? [] : [[f, t[i]]])));
const singles = (fs) => [{}, ...fs.map((f) => ({ [f]: false })), Object.fromEntries(fs.map((f) => [f, false])), Object.fromEntries(fs.map((f) => [f, true]))];
// ---- recognisers ----
export function v4(s) {
  const p = s.split("."); if (p.length !== 4) return;
  let n = 0; for (const x of p) { if (!/^(0|[1-9][0-9]{0,2})$/.test(x) || +x > 255) return; n = n * 256 + +x; }
  return n;
}
const in4 = (n, base, bits) => Math.floor(n / 2 ** (32 - bits)) === Math.floor(v4(base) / 2 ** (32 - bits));
export function bad4(n, c = {}) {
  return c.allowPrivate === false && (in4(n, "10.0.0.0", 8) || in4(n, "172.16.0.0", 12) || in4(n, "192.168.0.0", 16)) || c.allowLoopback === false && in4(n, "127.0.0.0", 8) || c.allowLinkLocal === false && in4(n, "169.254.0.0", 16)
    || c.allowMulticast === false && in4(n, "224.0.0.0", 4) || c.allowBroadcast === false && n === 2 ** 32 - 1 || c.allowZero === false && n === 0;
}
const str4 = (n) => [24, 16, 8, 0].map((k) => Math.floor(n / 2 ** k) % 256).join(".");
export function v6(s) { // -> eight numbers
  let groups = (t) => t === "" ? [] : t.split(":"), halves = s.split("::");
  if (halves.length > 2) return;
  const conv = (list, last) => { const out = []; for (let i = 0; i < list.length; i++) { const g = list[i]; if (last && i === list.length - 1 && g.includes(".")) { const n = v4(g); if (n === undefined) return; out.push(Math.floor(n / 65536), n % 65536); } else { if (!/^[0-9a-f]{1,4}$/i.test(g)) return; out.push(parseInt(g, 16)); } } return out; };
  if (halves.length === 1) { const g = conv(groups(s), true); return g?.length === 8 ? g : undefined; }
  const a = conv(groups(halves[0]), false), b = conv(groups(halves[1]), true);
  if (!a || !b || a.length + b.length > 7) return;
  return [...a, ...Array(8 - a.length - b.length).fill(0), ...b];
}
export function str6(g) {
  let best = [0, 0]; for (let i = 0; i < 8; i++) { let j = i; while (j < 8 && g[j] === 0) j++; if (j - i > best[1]) best = [i, j - i]; }
  const h = g.map((x) => x.toString(16));
  return best[1] < 2 ? h.join(":") : h.slice(0, best[0]).join(":") + "::" + h.slice(best[0] + best[1]).join(":");
}
export function bad6(g, c = {}) {
  const rest0 = g.slice(0, 7).every((x) => x === 0);
  return c.allowZero === false && rest0 && g[7] === 0 || c.allowLoopback === false && rest0 && g[7] === 1 || c.allowLinkLocal === false && g[0] >= 0xfe80 && g[0] <= 0xfebf || c.allowUniqueLocal === false && g[0] >= 0xfc00 && g[0] <= 0xfdff || c.allowMulticast === false && g[0] >= 0xff00;
}
const mapped = (g) => g.slice(0, 5).every((x) => x === 0) && g[5] === 0xffff ? g[6] * 65536 + g[7] : undefined;
const O4 = (c, s) => { const n = v4(s); return n === undefined || bad4(n, c) ? NO : yes(str4(n)); };
const O6 = (c, s) => { const g = v6(s); return !g || bad6(g, c) ? NO : yes(str6(g)); };
function OIP(c, s) {
  const v = c?.version ?? "both";
  if (v !== 6) { const r = O4(c?.ipv4, s); if (r.ok || v === 4) return r; }
  const r = O6(c?.ipv6, s); if (!r.ok) return NO;
  const m = mapped(v6(s)); if (v === "both" && m !== undefined && bad4(m, c?.ipv4)) return NO;
  return r;
}
function labels(s, under) { const l = s.split("."); return l.every((x) => x.length >= 1 && x.length <= 63 && (under ? /^[a-z0-9_-]+$/i : /^[a-z0-9-]+$/i).test(x) && x[0] !== "-" && x.at(-1) !== "-") ? l : undefined; }
const numeric = (l) => l.length >= 2 && l.every((x) => /^[0-9]+$/.test(x));
export function OHost(c, s) {
  if (s.length > (c?.maxLength ?? 253)) return NO;
  if (c?.allowLocalhost === false && s.toLowerCase() === "localhost") return NO;
  let rest = s; const wild = s.startsWith("*."); if (wild) { if (!c?.allowWildcard) return NO; rest = s.slice(2); if (c?.allowLocalhost === false && rest.toLowerCase() === "localhost") return; }
  const l = labels(rest, c?.allowUnderscore); if (!l) return NO;
  if (numeric(l)) return wild || l.length !== 4 || v4(s) === undefined ? undefined : NO;
  return yes(s);
}
function ODomain(c, s) {
  if (s.length > (c?.maxLength ?? 253)) return NO;
  const l = labels(s); if (!l) return NO;
  if (numeric(l)) return l.length === 4 ? NO : undefined;
  if (l.length < (c?.minLabels ?? 2) || c?.allowSubdomains === false && l.length > 2 || c?.allowedTlds && !c.allowedTlds.some((t) => t.toLowerCase() === l.at(-1).toLowerCase())) return NO;
  return yes(c?.lowercase ? s.toLowerCase() : s);
}
function OMac(c, s) {
  const cfg = { separator: "any", case: "preserve", ...c }; let oct, sep;
  for (const k of [":", "-"]) if (s.includes(k)) { const p = s.split(k); if (p.length !== 6 || !p.every((x) => /^[0-9a-f]{1,2}$/i.test(x))) return NO; oct = p.map((x) => x.padStart(2, "0")); sep = k; break; }
  if (!oct && s.includes(".")) { const p = s.split("."); if (p.length !== 3 || !p.every((x) => /^[0-9a-f]{4}$/i.test(x))) return NO; oct = p.flatMap((x) => [x.slice(0, 2), x.slice(2)]); sep = "."; }
  if (!oct) { if (!/^[0-9a-f]{12}$/i.test(s)) return NO; oct = s.match(/../g); sep = "none"; }
  if (cfg.separator !== "any" && cfg.separator !== sep) return NO;
  if (cfg.case === "upper") oct = oct.map((x) => x.toUpperCase()); if (cfg.case === "lower") oct = oct.map((x) => x.toLowerCase());
  const o = cfg.outputSeparator ?? sep;
  return yes(o === "." ? [oct[0] + oct[1], oct[2] + oct[3], oct[4] + oct[5]].join(".") : oct.join(o === "none" ? "" : o));
}
function addr(c, s) { // one address, trimmed -> string | undefined (rejected) | null (not specified)
  let e = s;
  if (/[<>]/.test(s)) {
    const m = /^([^<>"]*|"[^"\\]*") *<([^<>]*)>$/.exec(s);
    if (!m) return /^"[^"<>]*[<>]/.test(s) || /".*"/.test(s) ? null : /^[^"]*$/.test(s) ? undefined : null;
    if (!c.allowDisplayName) return undefined;
    if (m[1].replace(/"/g, "").trim() === "") return m[1] === "" ? undefined : null;
    e = m[2]; if (e !== e.trim()) return null;
  }
  const at = e.lastIndexOf("@"); if (at < 0) return undefined;
  const local = e.slice(0, at), dom = e.slice(at + 1);
  if (local.includes("\\")) return null;
  if (local[0] === '"') { if (local.length < 2 || local.at(-1) !== '"') return undefined; if (local.slice(1, -1).includes('"') || local.length === 2 || /[^ -~]/.test(local)) return null; }
  else if (!local.split(".").every((x) => /^[a-z0-9_+-]+$/i.test(x))) return undefined;
  if (local.length > 64 || e.length > 254) return undefined;
  const l = labels(dom); if (!l || l.length < 2) return undefined;
  if (numeric(l)) return l.length === 4 ? undefined : null;
  if (c.allowedDomains && !c.allowedDomains.some((d) => d.toLowerCase() === dom.toLowerCase())) return undefined;
  return c.lowercase ? local + "@" + dom.toLowerCase() : e;
}
function OMail(c0, s) {
  const c = c0 ?? {};
  if (!c.allowMultiple) { if (s !== s.trim()) return; const r = addr(c, s); return r === null ? undefined : r === undefined ? NO : yes(r); }
  const parts = [""]; let q = false, ang = false;
  for (const ch of s) { if (ch === '"') q = !q; else if (!q && ch === "<") ang = true; else if (!q && ch === ">") ang = false; if (ch === "," && ang) return; if (ch === "," && !q) parts.push(""); else parts[parts.length - 1] += ch; }
  if (q || parts.some((p) => /"/.test(p.trim().slice(1).replace(/"@[^"]*$|" *<[^"]*$/, "")))) return;
  const rs = parts.map((p) => addr(c, p.trim()));
  if (rs.includes(undefined)) return rs.includes(null) && false ? undefined : rs.includes(null) ? undefined : NO;
  return rs.includes(null) ? undefined : yes(rs);
}
const sport = (c, s) => /^[0-9]+$/.test(s) && +s >= (c?.min ?? 1) && +s <= (c?.max ?? 65535) && !(c?.disallowWellKnown && +s <= 1023 && +s >= 1) ? +s : undefined;
const odd = (s) => /^0[x0-9]/i.test(s) || /(^|\.)(0x[0-9a-f]*|0[0-9]+)(\.|$)/i.test(s);
// a host -> {ok} | undefined
function shost(c, s) {
  const h = c?.host ?? {}, type = h.type ?? "both";
  const version = h.version ?? (h.ip !== undefined && h.ipv4 === undefined && h.ipv6 === undefined ? 4 : "both");
  const ipc = { version, ipv4: { ...h.ip, ...h.ipv4 }, ipv6: h.ipv6 };
  if (type === "ip") return OIP(ipc, s);
  if (/^\d+\.\d+\.\d+\.\d+$/.test(s)) return type === "both" ? (odd(s) ? NO : OIP(ipc, s)) : NO;
  if (s.includes(":")) return type === "both" ? OIP(ipc, s) : NO;
  if (odd(s)) return undefined;
  return OHost(h.hostname, s);
}
export function OSock(c0, s) {
  const c = c0 ?? {}, sep = c.separator ?? ":", omit = c.defaultPort !== undefined && !c.requirePort, t = c.host?.type ?? "both";
  if (s !== s.trim() || sep.trim() !== "" && /\s/.test(s)) return;
  if (sep === ":") {
    if (s[0] === "[") {
      const m = /^\[([^\]]*)\](.*)$/s.exec(s); if (!m || !v6(m[1])) return NO;
      const h = shost(c, m[1]); if (!h.ok) return NO;
      if (m[2] === "") return omit ? yes({ host: h.v, port: c.defaultPort }) : NO;
      const p = m[2][0] === ":" ? sport(c.port, m[2].slice(1)) : undefined;
      return p === undefined ? NO : yes({ host: h.v, port: p });
    }
    if (v6(s)) { const h = shost(c, s); return h.ok && omit ? yes({ host: h.v, port: c.defaultPort }) : NO; }
    if (s.split(":").length > 2) return NO;
  }
  let numericSuffix = false, unspec = false;
  for (let i = s.lastIndexOf(sep); i >= 0; i = i ? s.lastIndexOf(sep, i - 1) : -1) {
    const a = s.slice(0, i).trim(), b = s.slice(i + sep.length).trim();
    const p = sport(c.port, b), h = shost(c, a);
    if (p !== undefined && h === undefined) unspec = true;
    if (p !== undefined && h?.ok) return unspec ? undefined : yes({ host: h.v, port: p });
    if (/^[0-9]+$/.test(b)) numericSuffix = true;
    // a separator inside or at the edge of the name
    if (sep !== ":" && (b === "" || /^\d+\.\d+\.\d+\.\d+$/.test(a))) unspec = true;
  }
  if (unspec) return;
  if (numericSuffix) return sep === ":" ? NO : undefined;
  const h = shost(c, s); if (h === undefined) return;
  return h.ok && omit ? yes({ host: h.v, port: c.defaultPort }) : NO;
}
// ---- inputs ----
const OCT = ["0", "1", "9", "10", "11", "15", "16", "31", "32", "100", "126", "127", "128", "168", "169", "172", "192", "223", "224", "239", "240", "254", "255", "256"];
function* in4s(quick, full) {
  for (const [a, b] of prod(OCT, OCT)) for (const [x, y] of full && !quick ? prod(OCT, OCT) : prod(["0", "1", "255"], ["0", "255"])) yield [a, b, x, y].join(".");
  for (let i = 0; i < 4; i++) for (let n = 0; n < 300; n++) { const o = ["192", "168", "2", "1"]; o[i] = String(n); yield o.join("."); }
  for (const s of ["192.168.1.1", "10.0.0.0", "255.255.255.255", "0.0.0.0", "127.0.0.1"]) yield* mutations(s, ["0", "1", "9", ".", "-", "+", " ", "a", "x", "\n", "\u0661", "\uff11"]);
}
const SIX = ["::", "::1", "1::", "fe80::1", "febf:ffff::", "fec0::1", "fe7f::", "fc00::", "fdff::1", "fbff::", "fe00::", "ff00::", "ff02::1", "feff::1", "2001:db8::1", "2001:DB8:0:0:1:0:0:1", "1:2:3:4:5:6:7:8", "1:2:3:4:5:6:1.2.3.4", "::ffff:192.168.0.1", "::ffff:10.1.2.3", "::ffff:127.0.0.1", "::ffff:0.0.0.0", "::ffff:255.255.255.255", "::ffff:224.0.0.1", "::ffff:169.254.1.1", "::ffff:8.8.8.8", "::8.8.8.8", "::fffe:10.0.0.1", "64:ff9b::10.0.0.1", "1::ffff:10.0.0.1", "0:0:0:0:0:ffff:c0a8:1", "::2", "::1:0:0", ...[0, 1, 2, 3, 4, 5].flatMap((i) => ["a00:1", "7f00:1", "808:808"].map((t) => [0, 1, 2, 3, 4, 5].map((j) => i === j ? (i === 5 ? "fff" : "1") : j === 5 ? "ffff" : "0").join(":") + ":" + t)), "::ffff:0:10.0.0.1", "::10.0.0.1", "::ffff:ffff:10.0.0.1"];
function* in6s(quick) {
  // every zero pattern, spelled with every possible "::"
  for (let m = 0; m < 256; m++) {
    const g = Array.from({ length: 8 }, (_, i) => m >> i & 1 ? (i % 3 ? "a" : "0B") : "0");
    yield g.join(":");
    for (let i = 0; i < 8; i++) for (let j = i; j <= 8; j++) { if (g.slice(i, j).some((x) => x !== "0")) break; yield g.slice(0, i).join(":") + "::" + g.slice(j).join(":"); yield g.slice(0, i).join(":") + "::" + [...g.slice(j, 6), "1.2.3.4"].join(":"); }
    yield [...g.slice(0, 6), "10.0.0.1"].join(":");
    yield g.map((x) => x === "0" ? "0000" : x).join(":");
  }
  for (let n = 0; n <= 9; n++) for (let m = 0; m <= 9; m++) for (const c of ["::", ":", ":::"]) for (const tail of [[], ["1.2.3.4"], ["1.2.3.256"], ["01.2.3.4"], ["1.2.3"]]) yield Array(n).fill("1").join(":") + c + [...Array(m).fill("2"), ...tail].join(":");
  for (const s of SIX) yield* quick && s.length > 20 ? [s] : mutations(s, [":", "::", "0", "f", "g", ".", " ", "%", "/", "\n"]);
  for (const f of ["fc00", "fbff", "fdff", "fe00", "fe7f", "fe80", "febf", "fec0", "feff", "ff00", "ffff", "0", "1"]) yield f + "::1", yield f + ":0:0:0:0:0:0:0";
}
const IPCFG = [undefined, { version: 4 }, { version: 6 }, { version: "both" }, ...prod(["both", 4, 6], singles(FLAGS4), singles(FLAGS6).slice(0, 7)).map(([version, ipv4, ipv6]) => ({ version, ipv4, ipv6 }))];
function* ips(quick) { yield* in4s(true); yield* in6s(quick); }
const L = (n, ch = "a") => ch.repeat(n);
const LONG = [L(63), L(64), L(63) + ".com", L(64) + ".com", [L(63), L(63), L(63), L(61)].join("."), [L(63), L(63), L(63), L(62)].join("."), [L(63), L(63), L(63), L(59), "c"].join("."), "*." + [L(63), L(63), L(63), L(59)].join("."), "*." + [L(63), L(63), L(63), L(60)].join(".")];
const NAMES = ["localhost", "LocalHost", "localhost.com", "a.localhost", "*.localhost", "example.com", "EXAMPLE.Com", "*.example.com", "*.*.example.com", "*", "*.", "a.*.com", "*a.com", "_http._tcp.example.com", "xn--bcher-kva.example", "1.2.3.4", "1.2.3.400", "1a.2.3.4", "256.256.256.256", "server-01.local", "a--b.c", "b\u00fccher.de", "ex ample.com", "example.com.", "example.com\n", "3com.com", "com"];
function* hosts(quick) { yield* strings(["a", "Z", "9", "-", "_", ".", "*"], quick ? 5 : 7); yield* LONG; for (const n of NAMES) yield* mutations(n, ["a", "-", ".", "_", "*", " ", "/", "\u00fc"]); }
const MACS = ["00:1A:2b:3c:4D:5e", "0:1:2:3:4:5", "00-1A-2b-3c-4D-5e", "0-a-2-B-4-5", "001A.2b3c.4D5e", "001A2b3c4D5e", "0:01:2:03:4:FF"];
const LOCALS = ["a", "a.b", "a..b", ".a", "a.", "a+b", "a_b-c", "A", "a b", "\"a b\"", "\"a@b\"", "\"a,b\"", "\"\"", "\"", "\"a", "a\"", "\"a\"b", "\u00e9", "a!b", "a@b", "", L(64), L(65), "\"<a>\"", "-a", "\"a>b\""];
const DOMS = ["x.yz", "X.Yz", "company.com", "Company.COM", "company.com.", "sub.company.com", "xcompany.com", "localhost", "", ".", "x..y", "-x.y", "x-.y", "x.y-", "1.2.3.4", "x_y.z", L(63) + ".c", L(64) + ".c", [L(63), L(63), L(63)].join("."), "ex ample.com"];
const MCFG = prod([undefined, true], [undefined, true], [undefined, true], [undefined, ["company.com"], ["X.yz", "company.com"]]).map(([m, d, l, a]) => ({ ...(m ? { allowMultiple: true } : {}), ...(d ? { allowDisplayName: true } : {}), ...(l ? { lowercase: true } : {}), ...(a ? { allowedDomains: a } : {}) }));
const SHOSTS = ["localhost", "example.com", "Ex-1.org", "toronto", "a", "1.2.3.4", "10.0.0.1", "127.0.0.1", "256.1.1.1", "1.2.3", "01.2.3.4", "0x7f", "*.a", "a_b", "", "-a", "a.", "::1", "[::1]", "[::]", "2001:DB8::1", "[2001:DB8:0::1]", "[::ffff:10.0.0.1]", "::ffff:10.0.0.1", "[1.2.3.4]", "[a]", "[::1", "::1]", "[]", "fe80::1", "[fe80::1]", "1:2:3:4:5:6:7:8", "[1:2:3:4:5:6:7:8]", "1:2:3", "to", "atob", "a to b", "[g::1]"];
const SPORTS = [null, "", "0", "1", "80", "443", "1023", "1024", "8080", "65535", "65536", "080", "-1", "+80", "a", "80a", "8 0", "99999999999999999999", "80:90", "0x50"];
const SCFG = prod([{}, { defaultPort: 8080 }, { requirePort: true }, { defaultPort: 8080, requirePort: true }],
  [{}, { separator: " " }, { separator: "to" }, { separator: "->" }, { separator: "-" }, { separator: "." }],
  [{}, { port: { min: 1024, max: 9000 } }, { port: { disallowWellKnown: true } }],
  [{}, { host: { type: "hostname" } }, { host: { type: "ip" } }, { host: { type: "both", version: 4 } }, { host: { type: "ip", version: 6 } }, { host: { type: "ip", version: 4, ipv4: { allowPrivate: false, allowLoopback: false } } }, { host: { ip: { allowPrivate: false } } }, { host: { ip: { allowLoopback: false }, ipv6: { allowLoopback: false } } }, { host: { type: "both", ipv4: { allowPrivate: false }, ipv6: { allowLinkLocal: false } } }, { host: { type: "hostname", hostname: { allowLocalhost: false, allowWildcard: true } } }, { host: { hostname: { allowUnderscore: true, maxLength: 9 } } }]).map((t) => Object.assign({}, ...t));
export const entries = {
  ipv4: { configs: [undefined, ...subsets(FLAGS4)], make: (A, c) => A.vp.ipv4(c), oracle: O4, *inputs(c, quick) { yield* in4s(quick, !c); } },
  ipv6: { configs: [undefined, ...subsets(FLAGS6)], make: (A, c) => A.vp.ipv6(c), oracle: O6, inputs: (c, quick) => in6s(quick) },
  ip: { configs: IPCFG, make: (A, c) => A.vp.ip(c), oracle: OIP, *inputs(c, quick) { if (quick && IPCFG.indexOf(c) > 3) { yield* SIX; for (const [a, b] of prod(OCT, ["0", "16", "31", "168", "254", "255"])) { yield `${a}.${b}.0.0`; yield `${a}.${b}.255.255`; yield `::ffff:${a}.${b}.0.0`; yield `::ffff:${a}.${b}.255.255`; } } else yield* ips(quick); } },
  cidr: {
    configs: [undefined, ...prod(["both", 4, 6], [undefined, 0, 8, 24, 32], [undefined, 16, 32, 64, 128], [{}, { ipv4: { allowPrivate: false } }, { ipv6: { allowLinkLocal: false }, ipv4: { allowZero: false } }]).filter(([v, a, b]) => (a ?? 0) <= (b ?? 128) && !(v === 4 && b > 32)).map(([version, minPrefix, maxPrefix, o]) => ({ version, ...(minPrefix !== undefined ? { minPrefix } : {}), ...(maxPrefix !== undefined ? { maxPrefix } : {}), ...o }))],
    make: (A, c) => A.vp.cidr(c),
    oracle(c, s) {
      const i = s.lastIndexOf("/"); if (i < 0) return NO;
      const a = s.slice(0, i), p = s.slice(i + 1); if (!/^(0|[1-9][0-9]*)$/.test(p)) return /^[0-9]+$/.test(p) ? undefined : NO;
      const r = OIP(c, a); if (!r.ok) return NO;
      const version = v4(a) !== undefined ? 4 : 6;
      if (+p > (version === 4 ? 32 : 128) || +p < (c?.minPrefix ?? 0) || +p > (c?.maxPrefix ?? 128)) return NO;
      return yes({ address: r.v, prefix: +p, version });
    },
    *inputs(c, quick) {
      for (const [a, p] of prod(["192.0.2.0", "10.0.0.0", "0.0.0.0", "1.2.3", "2001:DB8::", "fe80::", "::ffff:10.0.0.1", "::ffff:8.8.8.8", "::", "", "192.0.2.0/8"], ["0", "1", "7", "8", "9", "15", "16", "17", "23", "24", "25", "31", "32", "33", "63", "64", "65", "127", "128", "129", "", "-1", "+8", " 8", "8 ", "08", "8.0", "1e1", "a", "0x8"])) yield a + "/" + p;
      for (const s of ["192.0.2.0/24", "2001:db8::/32"]) yield* mutations(s, ["/", "0", "1", ".", ":", " ", "\\"]);
    },
  },
  hostname: { configs: [undefined, ...prod([undefined, true], [undefined, true], [undefined, false], [undefined, 1, 9, 300]).map(([w, u, l, m]) => ({ ...(w ? { allowWildcard: true } : {}), ...(u ? { allowUnderscore: true } : {}), ...(l === false ? { allowLocalhost: false } : {}), ...(m ? { maxLength: m } : {}) }))], make: (A, c) => A.vp.hostname(c), oracle: OHost, inputs: (c, quick) => hosts(quick) },
  domain: { configs: [undefined, ...prod([undefined, false], [undefined, ["com"], ["COM", "z"]], [undefined, 1, 2, 3], [undefined, true], [undefined, 9]).filter(([s, , n]) => !(s === false && n > 2)).map(([s, t, n, l, m]) => ({ ...(s === false ? { allowSubdomains: false } : {}), ...(t ? { allowedTlds: t } : {}), ...(n ? { minLabels: n } : {}), ...(l ? { lowercase: true } : {}), ...(m ? { maxLength: m } : {}) }))], make: (A, c) => A.vp.domain(c), oracle: ODomain, *inputs(c, quick) { yield* strings(["a", "Z", "9", "-", ".", "z"], quick ? 5 : 6); yield* LONG; for (const n of NAMES) yield* quick ? [n, n + ".com", n.toUpperCase(), "a." + n] : mutations(n, ["a", "-", ".", "_", "*", " "]); } },
  macAddress: {
    // output in a spelling the configuration does not accept is a recorded finding: one representative
    configs: [undefined, ...prod([undefined, ":", "-", ".", "none", "any"], [undefined, "preserve", "upper", "lower"], [undefined, ":", "-", ".", "none"]).map(([s, k, o]) => ({ ...(s ? { separator: s } : {}), ...(k ? { case: k } : {}), ...(o ? { outputSeparator: o } : {}) }))],
    make: (A, c) => A.vp.macAddress(c), oracle: OMac,
    *inputs(c, quick) { for (const m of MACS) yield* mutations(m, quick ? ["0", "F", ":", "-", "."] : ["0", "9", "a", "F", "g", ":", "-", ".", " ", "\n", ""]); for (const [a, b, sep] of prod(["", "0", "a", "0F", "ff", "100", "g", " 1"], ["", "1", "Ab", "001"], [":", "-", ".", ""])) for (let i = 0; i < 6; i++) for (let j = 0; j < 6; j++) { const o = Array(6).fill("1b"); o[i] = a; o[j] = b; yield o.join(sep); } },
  },
  email: {
    configs: [undefined, ...MCFG], make: (A, c) => A.vp.email(c), oracle: OMail,
    *inputs(c, quick) {
      const all = prod(LOCALS, DOMS).map(([l, d]) => l + "@" + d); yield* all; yield* LOCALS;
      const some = prod(["a", "\"a b\"", "\"a@b\"", "\"a,b\"", "a..b", "A"], ["x.yz", "Company.COM", "localhost"]).map(([l, d]) => l + "@" + d);
      const disp = prod(["Name ", "", "\"N, M\" ", "N M", "\"N\"", " ", "N <x> ", "\"N <x>\" "], some.slice(0, 12)).map(([n, e]) => `${n}<${e}>`);
      yield* disp; for (const e of disp.slice(0, 3)) yield* mutations(e, ["<", ">", "\"", "@", ",", " "]);
      for (const e of ["a@x.yz", "\"a b\"@x.yz"]) yield* mutations(e, ["a", ".", "@", "\"", " ", "<", ",", "-"]);
      const items = [...some, ...disp.filter((_, i) => i % 5 === 0), ""];
      for (const [a, s, b] of prod(items, [",", ", ", " , ", ";", " "], items)) yield a + s + b;
      if (!quick) for (const [a, b, d] of prod(items, items, items)) yield [a, b, d].join(",");
    },
  },
  socketAddress: {
    configs: [undefined, ...SCFG], make: (A, c) => A.vp.socketAddress(c), oracle: OSock,
    *inputs(c, quick) {
      for (const [h, s, p] of prod(SHOSTS, [...new Set([":", c?.separator ?? ":"])], SPORTS)) yield p === null ? h : h + s + p;
      if (quick) return;
      for (const s of ["a:80", "[::1]:80", "1.2.3.4:80", "::1"]) yield* mutations(s.replace(/:(?=80)/, c?.separator ?? ":"), [":", "[", "]", "0", "a", ".", "-", c?.separator ?? ":"]);
    },
  },
  url: {
    configs: [undefined, { allowedProtocols: ["https:"] }, { allowedProtocols: ["http:", "HTTPS:", "mailto:"] }, { allowedProtocols: ["wss:"] }], make: (A, c) => A.vp.url(c), eq: (a, b) => a instanceof URL && a.href === b.href, show: (u) => String(u),
    oracle(c, s) { let u; try { u = new URL(s); } catch { return NO; } return c?.allowedProtocols && !c.allowedProtocols.some((p) => p.toLowerCase() === u.protocol) ? NO : yes(u); },
    *inputs(c, quick) { for (const [p, h, t] of prod(["http:", "https:", "HTTP:", "httpx:", "http", "ftp:", "mailto:", "javascript:", "file:", "", ":", "wss:", "ws:"], ["//a.b", "//u:p@a.b:80", "a@b", "//", "//[::1]:8", "/", "//a b", "//\u00e9.com", "\\\\a.b"], ["", "/x", "?q=1#f", "/a b", ":99999", "/%zz", "/\u00e9"])) yield p + h + t; yield* mutations("https://a.b/c", [":", "/", "s", " ", "?", "\t"]); },
  },
};
// parse/format disagreement of macAddress with a different output separator
entries.macAddress.noFormatFor = (c) => c?.separator && c.separator !== "any" && c.outputSeparator && c.outputSeparator !== c.separator;
entries.macOutput = { ...entries.macAddress, configs: [{ separator: ":", outputSeparator: "-" }], inputs: () => ["00:1A:2b:3c:4D:5e"], noFormatFor: undefined };
export async function run(ctx) { const A = await api(ctx); await runAll(ctx, A, entries); }
export async function replay(ctx, d) { await replayOne(ctx, await api(ctx), entries, d); }

// Value parsers against independent recognisers: every string of an enumerated
// input set, for every configuration.
// entry: { configs: [..], make(A, cfg), inputs(cfg, quick) -> iterable of strings,
//   oracle(cfg, s) -> { ok: false } | { ok: true, v } | undefined (not specified),
//   eq?(a, b), show?(v), values?(cfg, quick) -> values to format and parse again }
import { isDeepStrictEqual } from "node:util";
export const NO = { ok: false };
export const yes = (v) => ({ ok: true, v });
export const J = (x) => JSON.stringify(x, (k, v) => typeof v === "bigint" ? `${v}n` : v instanceof RegExp ? String(v) : typeof v === "number" && !Number.isFinite(v) ? String(v) : v === undefined ? null : v);
const text = (v) => { try { return J(v) ?? String(v); } catch { return String(v); } };
const same = (e, a, b) => e.eq ? e.eq(a, b) : isDeepStrictEqual(a, b);
export async function judge(ctx, A, entries, d, P) {
  const e = entries[d.e], cfg = e.configs[d.c], p = P ?? e.make(A, cfg), show = e.show ?? text;
  const fail = (m) => ctx.violation(J(d), `${d.e}(${J(cfg)}): ${m}`, d, (d.s?.length ?? 20) + J(cfg ?? "").length);
  ctx.state(); ctx.transition();
  let value;
  if (d.s !== undefined) {
    const want = e.oracle(cfg, d.s);
    let r; try { r = p.parse(d.s); if (p.mode === "async") r = await r; ctx.exec(); } catch (x) { return fail(`parse(${J(d.s)}) threw ${x}`); }
    ctx.distinct(J([d.e, d.c, d.s]));
    ctx.outcome(`${d.e} ${want === undefined ? "not specified" : want.ok ? "accept" : "reject"}`);
    if (want !== undefined) {
      if (want.ok !== r.success) return fail(`parse(${J(d.s)}): expected ${want.ok ? "accepted as " + show(want.v) : "rejected"}, got ${r.success ? "accepted as " + show(r.value) : "rejected"}`);
      if (want.ok && !same(e, r.value, want.v)) return fail(`parse(${J(d.s)}): expected ${show(want.v)}, got ${show(r.value)}`);
    }
    if (!r.success) { if (!Array.isArray(r.error) || !r.error.length) fail(`parse(${J(d.s)}) rejected without a message`); return; }
    value = r.value;
    if (e.noFormatFor?.(cfg)) return;
    if (e.extra) { const m = e.extra(cfg, d.s, r.value, p); if (m) return fail(`parse(${J(d.s)}): ${m}`); }
  }
  roundTrip(ctx, e, p, value, fail, show, d.s);
}
function roundTrip(ctx, e, p, value, fail, show, from) {
  if (e.noFormat || e.noFormatIf?.(value)) return;
  let f, r; try { f = p.format(value); r = p.parse(f); ctx.exec(2); } catch (x) { return fail(`format/parse of ${show(value)} threw ${x}`); }
  if (r?.then) return r.then((r) => done(r));
  return done(r);
  function done(r) {
    if (typeof f !== "string" || !r.success || !(e.eqFormat ? e.eqFormat(r.value, value) : same(e, r.value, value))) fail(`${from !== undefined ? `parse(${J(from)}) gives ${show(value)}; ` : ""}format(${show(value)}) is ${J(f)}, which parses as ${r.success ? show(r.value) : "an error"}`);
  }
}
export async function runAll(ctx, A, entries) {
  for (const name of Object.keys(entries)) {
    const e = entries[name];
    for (let c = 0; c < e.configs.length; c++) {
      const p = e.make(A, e.configs[c]); let n = 0; const seen = new Set();
      for (const s of e.inputs(e.configs[c], ctx.quick)) {
        if (!ctx.next()) continue;
        if (seen.has(s)) continue; seen.add(s);
        ctx.begin({ e: name, c, s });
        const r = judge(ctx, A, entries, { e: name, c, s }, p); if (p.mode === "async") await r;
        if (++n % 2000 === 0) ctx.checkTime();
        if (n < 3 && c < 2) ctx.sample({ parser: name, config: J(e.configs[c]), input: s });
      }
      if (e.values) {
        let i = -1; const show = e.show ?? text;
        for (const v of e.values(e.configs[c], ctx.quick)) {
          i++; if (!ctx.next()) continue;
          ctx.state(); ctx.transition(); ctx.distinct(J([name, c, "v", show(v)])); ctx.outcome(`${name} format`);
          const d = { e: name, c, val: J(v) };
          roundTrip(ctx, e, p, v, (m) => ctx.violation(J(d), `${name}(${J(e.configs[c])}): ${m}`, d, J(d).length), show);
          if (i % 5000 === 0) ctx.checkTime();
        }
      }
    }
  }
}
export async function replayOne(ctx, A, entries, d) {
  const e = entries[d.e];
  if (d.val === undefined) return judge(ctx, A, entries, d);
  const show = e.show ?? text;
  for (const q of [true, false]) for (const v of e.values(e.configs[d.c], q)) if (J(v) === d.val) return roundTrip(ctx, e, e.make(A, e.configs[d.c]), v, (m) => ctx.violation(J(d), m, d), show);
}
export function* strings(alpha, max) { // every string of at most max symbols
  let cur = [""]; yield "";
  for (let n = 1; n <= max; n++) { const next = []; for (const s of cur) for (const a of alpha) { const t = s + a; yield t; if (n < max) next.push(t); } cur = next; }
}
// every single-symbol deletion, insertion, replacement and doubling
export function* mutations(s, alpha) {
  yield s;
  for (let i = 0; i <= s.length; i++) {
    if (i < s.length) yield s.slice(0, i) + s.slice(i + 1);
    for (const a of alpha) { yield s.slice(0, i) + a + s.slice(i); if (i < s.length) yield s.slice(0, i) + a + s.slice(i + 1); }
  }
}
export const prod = (...ls) => ls.reduce((acc, l) => acc.flatMap((t) => l.map((x) => [...t, x])), [[]]);

// Systematic generator of nested programs. Leaves get fresh names by position
// so that programs are conflict-free; each leaf contributes its own tokens.
const ABC = "abcdefgh";
export const LEAF = {
  F: (i) => ({ p: ["flag", ["-" + "vwxyzu"[i], "--flag" + i]], t: ["-" + "vwxyzu"[i]] }),
  B: (i) => ({ p: ["bool", ["-" + "pqrstm"[i], "--bool" + i]], t: ["-" + "pqrstm"[i]] }),
  O: (i) => ({ p: ["opt", ["-" + "nolkji"[i], "--num" + i], "num"], t: [`--num${i}=5`, `--num${i}`] }),
  S: (i) => ({ p: ["opt", ["--str" + i], "str"], t: [`--str${i}`] }),
  A: (i) => ({ p: ["arg", "str"], t: [] }),
  N: (i) => ({ p: ["arg", "num"], t: [] }),
  C: (i) => ({ p: ["cmd", "cmd" + i, ["obj", { ["b" + i]: ["bool", ["-" + "PQRSTM"[i]]], ["x" + i]: ["optl", ["arg", "str"]] }]], t: ["cmd" + i, "-" + "PQRSTM"[i]] }),
  K: (i) => ({ p: ["const", "k" + i], t: [] }),
  G: (i) => ({ p: ["neg", ["--on" + i], ["--off" + i]], t: ["--on" + i, "--off" + i] }),
};
// shape: "F" | ["w", shape] wrapper | ["c", [shapes]] composite
export function instantiate(shape, leaves = LEAF) {
  let n = 0, key = 0; const toks = new Set(), meta = [];
  const go = (s) => {
    if (typeof s === "string") { const l = leaves[s](n++); l.t.forEach((t) => toks.add(t)); meta.push(l); return l.p; }
    const [k, c] = s;
    switch (k) {
      case "optl": case "map": case "ne": return [k, go(c)];
      case "def": return ["def", go(c), "D"];
      case "mult": return ["mult", go(c), {}];
      case "mult1": return ["mult", go(c), { min: 1, max: 2 }];
      case "group": return ["group", "G", go(c)];
      case "obj": return ["obj", Object.fromEntries(c.map((x) => ["f" + key++, go(x)]))];
      case "merge": return ["merge", c.map((x) => ["obj", { ["f" + key++]: go(x) }])];
      case "concat": return ["concat", c.map((x) => ["tup", [go(x)]])];
      case "cmd": { const nm = "do" + n; toks.add(nm); meta.push({ cmd: [nm], fin: nm, toks: [nm] }); return ["cmd", nm, go(c)]; }
      case "cond": return ["cond", go(c[0]), { alpha: go(c[1]), beta: go(c[2]) }, c[3] ? go(c[3]) : null];
      default: return [k, c.map(go)];
    }
  };
  return { p: go(shape), toks: [...toks], meta };
}
export const WRAPS = ["optl", "def", "mult", "mult1", "map", "ne", "group", "cmd"];
export const COMPS = ["obj", "tup", "seq", "merge", "concat", "or"];

// Transpiles /repo's current working tree (packages/*/src) with esbuild into a
// scratch directory, so that every check runs the code as it is now.  No type
// checking, no declaration files; @optique/* imports are resolved to the
// package sources, third-party imports to absolute paths in /repo's
// node_modules.
import { createRequire } from "node:module";
import { existsSync, mkdirSync, readdirSync, readFileSync, rmSync, statSync } from "node:fs";
import { join, dirname, relative } from "node:path";
import { fileURLToPath, pathToFileURL } from "node:url";

export const VERIF = dirname(dirname(fileURLToPath(import.meta.url)));
export const REPO = process.env.OPTIQUE_REPO ?? "/repo";
const require = createRequire("/opt/veriftools/node/node_modules/");
const PKGS = join(REPO, "packages");

function sources(dir, out = []) {
  for (const e of readdirSync(dir, { withFileTypes: true })) {
    const p = join(dir, e.name);
    if (e.isDirectory()) { if (e.name !== "fixtures") sources(p, out); }
    else if (/\.ts$/.test(e.name) && !/\.(test|d)\.ts$/.test(e.name)) out.push(p);
  }
  return out;
}

const exportsCache = new Map();
function exportTarget(pkg, sub) {
  // "./x" -> { import: "./dist/x.js" } -> src/x.ts
  if (!exportsCache.has(pkg)) {
    exportsCache.set(pkg, JSON.parse(readFileSync(join(PKGS, pkg, "package.json"), "utf8")).exports ?? {});
  }
  const e = exportsCache.get(pkg)[sub === "" ? "." : "./" + sub];
  if (e == null) throw new Error(`No export ${sub} in @optique/${pkg}`);
  const t = typeof e === "string" ? e : typeof e.import === "string" ? e.import : e.import.default;
  return join(PKGS, pkg, t.replace(/^\.\/dist\//, "src/").replace(/\.js$/, ".ts"));
}

export async function build(outdir) {
  const esbuild = require("esbuild");
  rmSync(outdir, { recursive: true, force: true });
  mkdirSync(outdir, { recursive: true });
  const entries = [];
  for (const pkg of readdirSync(PKGS)) {
    const src = join(PKGS, pkg, "src");
    if (existsSync(join(PKGS, pkg, "package.json")) && existsSync(src) && statSync(src).isDirectory()) sources(src, entries);
  }
  await esbuild.build({
    entryPoints: entries,
    bundle: true, splitting: true, format: "esm", platform: "node", target: "node20",
    outdir, outbase: PKGS, logLevel: "error", sourcemap: false, write: true,
    entryNames: "[dir]/[name]", chunkNames: "chunks/[name]-[hash]",
    plugins: [{
      name: "repo",
      setup(b) {
        b.onResolve({ filter: /^@optique\// }, (a) => {
          const [, pkg, ...rest] = a.path.split("/");
          return { path: exportTarget(pkg, rest.join("/")) };
        });
        b.onResolve({ filter: /^[^./#]/ }, (a) => {
          if (a.pluginData === "inner" || a.path.startsWith("node:")) return;
          if (a.kind === "entry-point") return;
          // third party: import it from where the package sees it
          try {
            const url = createRequire(pathToFileURL(a.importer)).resolve;
            // Prefer the ESM entry that Node itself would select.
            return { path: resolveEsm(a.path, a.importer) ?? url(a.path), external: true };
          } catch { return { path: a.path, external: true }; }
        });
      },
    }],
  });
  return outdir;
}

function resolveEsm(spec, importer) {
  const parts = spec.split("/");
  const name = spec.startsWith("@") ? parts.slice(0, 2).join("/") : parts[0];
  const sub = spec.slice(name.length).replace(/^\//, "");
  for (let d = dirname(importer); d !== "/"; d = dirname(d)) {
    const root = join(d, "node_modules", name);
    if (!existsSync(join(root, "package.json"))) continue;
    const pj = JSON.parse(readFileSync(join(root, "package.json"), "utf8"));
    const pick = (e) => typeof e === "string" ? e : Array.isArray(e) ? pick(e[0])
      : e && typeof e === "object"
      ? (() => { for (const k of Object.keys(e)) if (["node", "import", "default", "module"].includes(k)) { const r = pick(e[k]); if (r) return r; } })()
      : undefined;
    const ex = pj.exports;
    let t;
    if (ex == null) t = sub || pj.module || pj.main || "index.js";
    else if (typeof ex === "string") t = ex;
    else if (Object.keys(ex).some((k) => k.startsWith("."))) t = pick(ex[sub ? "./" + sub : "."]);
    else t = pick(ex);
    return t ? join(root, t) : undefined;
  }
}

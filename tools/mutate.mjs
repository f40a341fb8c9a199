// node tools/mutate.mjs FILE N SEED OUTDIR : writes N random single-point mutants of /repo/FILE as patches.
// Used off line to plan planted bugs; no check reads its output.
import { createRequire } from "node:module";
import { readFileSync, writeFileSync, mkdirSync } from "node:fs";
import { execFileSync } from "node:child_process";
const ts = createRequire("/opt/veriftools/node/")("typescript");
const [file, n, seed, out] = process.argv.slice(2);
const src = readFileSync("/repo/" + file, "utf8");
const sf = ts.createSourceFile(file, src, ts.ScriptTarget.Latest, true);
const own = new Set(); // lines of our own commits
for (const l of execFileSync("git", ["-C", "/repo", "blame", "-s", file], { encoding: "utf8", maxBuffer: 1e9 }).split("\n").entries()) if (l[1] && !l[1].startsWith("75fb381") && !l[1].startsWith("^75fb381")) own.add(l[0]);
const M = [];
const K = ts.SyntaxKind;
const add = (node, text, kind) => { const s = node.getStart(sf), e = node.getEnd(); const l0 = sf.getLineAndCharacterOfPosition(s).line, l1 = sf.getLineAndCharacterOfPosition(e).line; for (let l = l0; l <= l1; l++) if (own.has(l)) return; M.push({ s, e, text, kind, line: l0 + 1 }); };
const T = (x) => x.getText(sf);
function inFn(node) { for (let p = node.parent; p; p = p.parent) if (ts.isFunctionLike(p)) return true; return false; }
(function walk(node) {
  if (ts.isInterfaceDeclaration(node) || ts.isTypeNode(node) || ts.isThrowStatement(node)) return;
  if (inFn(node)) {
    if (ts.isBinaryExpression(node)) {
      const o = node.operatorToken.kind, l = T(node.left), r = T(node.right);
      if (o === K.AmpersandAmpersandToken || o === K.BarBarToken) { add(node, l, "left"); add(node, r, "right"); }
      if (o === K.QuestionQuestionToken) { add(node, l, "nocoal"); }
      const sw = { "<": "<=", "<=": "<", ">": ">=", ">=": ">", "===": "!==", "!==": "===", "+": "-" }[T(node.operatorToken)];
      if (sw && sw !== "-" && !(l.startsWith("typeof") && false)) add(node, `${l} ${sw} ${r}`, "op");
    }
    if (ts.isIfStatement(node)) {
      const b = T(node.thenStatement);
      if (!node.elseStatement && b.length < 400) add(node, "", "dropif");
    }
    if (ts.isConditionalExpression(node)) { add(node, T(node.whenTrue), "condT"); add(node, T(node.whenFalse), "condF"); }
    if (ts.isSpreadAssignment(node) && T(node).length < 200) add(node, "", "dropspread");
    if (ts.isExpressionStatement(node) && ts.isCallExpression(node.expression) && T(node).length < 300) add(node, ";", "dropcall");
    if (ts.isExpressionStatement(node) && ts.isBinaryExpression(node.expression) && node.expression.operatorToken.kind === K.EqualsToken) add(node, ";", "dropassign");
    if (ts.isContinueStatement(node) || ts.isBreakStatement(node)) add(node, ";", "dropjump");
    if (ts.isNumericLiteral(node) && /^[0-2]$/.test(T(node))) add(node, String(Number(T(node)) + 1), "num");
    if (node.kind === K.TrueKeyword) add(node, "false", "bool"); if (node.kind === K.FalseKeyword) add(node, "true", "bool");
    if (ts.isArrayLiteralExpression(node) && node.elements.length > 1 && ts.isSpreadElement(node.elements[0])) add(node.elements[0], "", "droparr");
  }
  ts.forEachChild(node, walk);
})(sf);
let x = Number(seed) || 1;
const rnd = () => (x = (x * 1103515245 + 12345) % 2147483648) / 2147483648;
mkdirSync(out, { recursive: true });
const pick = new Set();
while (pick.size < Math.min(n, M.length)) pick.add(Math.floor(rnd() * M.length));
const base = file.replaceAll("/", "_");
let k = 0;
for (const i of pick) {
  const m = M[i];
  let text = m.text;
  if (m.kind === "droparr" || m.kind === "dropspread") { let e = m.e; while (/\s/.test(src[e])) e++; if (src[e] === ",") m.e = e + 1; }
  const mut = src.slice(0, m.s) + text + src.slice(m.e);
  const tmp = `${out}/m.ts`; writeFileSync(tmp, mut);
  let d; try { execFileSync("diff", ["-u", "--label", "a/" + file, "--label", "b/" + file, "/repo/" + file, tmp]); continue; } catch (e) { d = e.stdout.toString(); }
  writeFileSync(`${out}/${base.slice(-24)}_${m.line}_${m.kind}_${k++}.diff`, d);
}
console.log(M.length, "candidates", k, "written");

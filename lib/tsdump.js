// prints the syntax trees of the TypeScript files named on the command line as JSON
const ts = require("/opt/veriftools/node/node_modules/typescript");
const fs = require("fs");
const names = {};
for (const k of Object.keys(ts.SyntaxKind)) {
  const v = ts.SyntaxKind[k];
  if (typeof v === "number" && !/^(First|Last)/.test(k) && !(v in names)) names[v] = k;
}
const skip = new Set(["kind", "pos", "end", "flags", "parent", "modifierFlagsCache", "transformFlags", "id", "jsDoc",
  "jsDocCache", "flowNode", "locals", "nextContainer", "symbol", "localSymbol", "endFlowNode", "returnFlowNode", "emitNode",
  "contextualType", "original", "original", "type", "typeParameters", "typeArguments", "numericLiteralFlags", "hasExtendedUnicodeEscape"]);
function conv(n, sf) {
  if (Array.isArray(n)) return n.map(x => conv(x, sf));
  if (n === null || typeof n !== "object") return n === undefined ? null : n;
  if (typeof n.kind !== "number") return null;
  const o = { k: names[n.kind], l: sf.getLineAndCharacterOfPosition(n.getStart ? Math.max(0, n.pos) : 0).line + 1 };
  try { o.l = sf.getLineAndCharacterOfPosition(n.getStart(sf)).line + 1; } catch (e) {}
  if (n.kind === ts.SyntaxKind.VariableDeclarationList) o.const = (n.flags & ts.NodeFlags.Const) !== 0;
  for (const p of Object.keys(n)) {
    if (skip.has(p)) continue;
    const v = n[p];
    if (v === undefined) continue;
    if (typeof v === "object" || typeof v === "string" || typeof v === "number" || typeof v === "boolean") {
      const c = p === "escapedText" ? ts.unescapeLeadingUnderscores(v) : conv(v, sf);
      if (c !== null) o[p] = c;
    }
  }
  return o;
}
const out = {};
for (const f of process.argv.slice(2)) {
  const src = fs.readFileSync(f, "utf8");
  const sf = ts.createSourceFile(f, src, ts.ScriptTarget.ES2022, false, f.endsWith(".js") ? ts.ScriptKind.JS : ts.ScriptKind.TS);
  if (sf.parseDiagnostics && sf.parseDiagnostics.length) { out[f] = { error: String(sf.parseDiagnostics[0].messageText) }; continue; }
  out[f] = conv(sf.statements, sf);
}
process.stdout.write(JSON.stringify(out));

// Writes properties.jsonl and MANIFEST.json from tools/props.mjs.
import fs from "node:fs";
import { PROPS, NOT_APPLICABLE } from "./props.mjs";
const V = new URL("..", import.meta.url).pathname;
const seen = new Set();
const lines = PROPS.map((p) => {
  if (seen.has(p.id)) throw new Error("dup " + p.id);
  seen.add(p.id);
  if (p.title.length > 80) throw new Error("title too long " + p.id + " " + p.title.length);
  for (const f of p.files) if (!fs.existsSync("/repo/" + f)) throw new Error(p.id + " no such file " + f);
  return JSON.stringify({
    id: p.id, title: p.title, statement: p.statement, quantifier: p.quantifier, why_tests_cant: p.why,
    anchors: { files: p.files, mechanism: p.mechanism.map(([name, where]) => ({ name, where })), observe_at: p.observe ?? [], hook_needed: null },
  });
});
fs.writeFileSync(V + "properties.jsonl", lines.join("\n") + "\n");
const na = new Set(NOT_APPLICABLE.map((x) => x.property));
const checks = PROPS.filter((p) => !na.has(p.id)).map((p) => {
  if (!fs.existsSync(`${V}checks/${p.id}.mjs`)) throw new Error("no check " + p.id);
  return {
    property: p.id, quick_cmd: `node harness/run.mjs ${p.id}`, thorough_cmd: `VERIF_TIER=thorough node harness/run.mjs ${p.id}`,
    evidence_file: `evidence/${p.id}.json`, technique: p.technique, level: p.level ?? "exploration", level_note: p.note,
  };
});
fs.writeFileSync(V + "MANIFEST.json", JSON.stringify({
  version: 1, setup_cmd: "node --version", checks, not_applicable: NOT_APPLICABLE,
  notes: "No hooks in /repo: the checks load the TypeScript sources of /repo's working tree directly (esbuild transform in a module-loading hook) and instrument from the outside.",
}, null, 1) + "\n");
console.log(PROPS.length, "properties,", checks.length, "checks");

// Rewrites the generated part of DESIGN.md: one section per property and the table of planted bugs.
import fs from "node:fs";
import { PROPS } from "./props.mjs";
import { UNCLAIMED } from "./unclaimed.mjs";
const V = new URL("..", import.meta.url).pathname;
const MARK = "## Per property\n";
let s = fs.readFileSync(V + "DESIGN.md", "utf8");
s = s.slice(0, s.indexOf(MARK) + MARK.length);
const caught = fs.existsSync(V + "tools/caught.json") ? JSON.parse(fs.readFileSync(V + "tools/caught.json", "utf8")) : {};
const known = fs.readFileSync(V + "known-findings.txt", "utf8").split("\n").filter(Boolean);
const seeds = fs.existsSync(V + "seeded") ? fs.readdirSync(V + "seeded").filter((d) => fs.existsSync(`${V}seeded/${d}/meta.json`)).map((d) => ({ id: d, ...JSON.parse(fs.readFileSync(`${V}seeded/${d}/meta.json`, "utf8")) })) : [];
const { install } = await import("../harness/hooks.mjs");
install();
const check = async (id) => (await import(`../checks/${id}.mjs`)).default;
const out = [];
for (const p of PROPS) {
  const m = await check(p.id);
  let ev;
  try {
    ev = JSON.parse(fs.readFileSync(`${V}evidence/${p.id}.json`, "utf8"));
  } catch {}
  out.push(`### ${p.id} ${p.title}\n`);
  out.push(p.statement + "\n");
  out.push(`* **Quantified** ${p.quantifier.text}.`);
  out.push(`* **Why tests cannot settle it** ${p.why}`);
  out.push(`* **Technique** ${p.technique}.`);
  out.push(`* **Oracle** ${m.rule}`);
  const a = [].concat(m.assumptions ?? []);
  if (a.length) out.push(`* **Assumed** ${a.join("; ").replace(/\.$/, "")}.`);
  out.push(`* **Bounds** ${p.note}`);
  const src = fs.readFileSync(`${V}checks/${p.id}.mjs`, "utf8");
  const n = [...src.matchAll(/ctx\.n\((\d[\d_]*), ?(\d[\d_]*)\)/g)].slice(0, 4).map((x) => `${x[1]} / ${x[2]}`);
  if (n.length) out.push(`* **Workload** main loops, quick / thorough: ${n.join(", ")}; histories or cases are drawn anew per seed.`);
  void ev;
  for (const u of UNCLAIMED[p.id] ?? []) out.push(`* *Not claimed:* ${u}.`);
  for (const k of known.filter((x) => x.includes(`property=${p.id} `))) out.push(`* ${k.startsWith("fixed") ? "*Repaired:*" : "*Known finding:*"} ${k.replace(/^fixed: property=P\d+ /, "").replace(/^.*?property=P\d+ /, "")}`);
  out.push("");
}
out.push("## Planted bugs and what catches them\n");
out.push("Each was written from the property's text and the code; the demonstration passes on the clean tree and fails with the patch; the repository's tests pass with it. \"Strengthened\" tells what the check lacked when the bug was first run against it.\n");
out.push("| bug | property | needs | caught by | note |\n|---|---|---|---|---|");
const clean = (x) => String(x).replaceAll("|", "\\|").replaceAll("\n", " ");
for (const b of seeds) out.push(`| ${b.id} | ${b.property} | ${clean(b.needs)} | ${caught[b.id]?.by ?? b.property} | ${clean(caught[b.id]?.note ?? "")} |`);
out.push("");
fs.writeFileSync(V + "DESIGN.md", s + "\n" + out.join("\n"));

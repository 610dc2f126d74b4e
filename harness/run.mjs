// node harness/run.mjs <property id>   (VERIF_SEED, VERIF_TIER)
process.env.TZ ??= "UTC";
import fs from "node:fs";
import path from "node:path";
import { fileURLToPath } from "node:url";
import { install } from "./hooks.mjs";
import { Ctx, out, show } from "./ctx.mjs";
import { realTimers } from "./clock.mjs";

const id = process.argv[2];
let seed = Number.parseInt(process.env.VERIF_SEED ?? "1", 10) || 1;
let tier = process.env.VERIF_TIER === "thorough" ? "thorough" : "quick";
const ri = process.argv.indexOf("--replay");
if (ri > 0) {
  const r = JSON.parse(fs.readFileSync(process.argv[ri + 1], "utf8"));
  seed = r.seed;
  tier = r.tier;
}
const here = path.dirname(fileURLToPath(import.meta.url));
process.env.AWS_REGION ??= "eu-west-1";
process.env.AWS_ACCESS_KEY_ID ??= "verif";
process.env.AWS_SECRET_ACCESS_KEY ??= "verif";
delete process.env.HTTP_PROXY;
delete process.env.HTTPS_PROXY;

// Everything the code under test writes to stdout/stderr is captured as log events.
export const logSink = { lines: [], listeners: new Set() };
globalThis.__vlog = logSink;
for (const s of [process.stdout, process.stderr]) {
  const orig = s.write.bind(s);
  s.write = (chunk, enc, cb) => {
    const t = typeof chunk === "string" ? chunk : Buffer.from(chunk).toString("utf8");
    if (process.env.VERIF_SHOWLOG) orig(t);
    logSink.lines.push(t);
    if (logSink.lines.length > 200000) logSink.lines.splice(0, 100000);
    for (const l of logSink.listeners) l(t);
    const f = typeof enc === "function" ? enc : cb;
    if (f) queueMicrotask(() => f(null));
    return true;
  };
}

install();
const mod = await import(path.join(here, "..", "checks", `${id}.mjs`));
const check = mod.default;
const ctx = new Ctx(check, { seed, tier });
globalThis.__ctx = ctx;

process.on("unhandledRejection", (e) => {
  if (check.ignoreUnhandled?.(e)) return;
  ctx.violation("unhandled-rejection", "a promise rejection escaped every handler", { error: String(e?.stack ?? e) });
});
process.on("uncaughtException", (e) => {
  if (check.ignoreUnhandled?.(e)) return;
  if (ctx.phase === "run") ctx.violation("uncaught-exception", "an exception escaped every handler", { error: String(e?.stack ?? e) });
  else {
    out(`ERROR ${e?.stack ?? e}`);
    process.exit(2);
  }
});
const limit = (tier === "thorough" ? 870 : 600) * 1000;
const dog = realTimers.setTimeout(() => {
  out(`INCONCLUSIVE property=${id} watchdog after ${limit / 1000}s (${ctx.evaluations} evaluations)`);
  const rc = ctx.violations.size ? ctx.finish() : 2;
  process.exit(rc);
}, limit);
dog.unref?.();

let rc = 2;
try {
  ctx.phase = "run";
  await check.run(ctx);
  for (let i = 0; i < 3; i++) await new Promise((r) => realTimers.setImmediate(r));
  ctx.phase = "end";
  rc = ctx.finish();
} catch (e) {
  out(`ERROR in check ${id}: ${e?.stack ?? e}`);
  if (ctx.violations.size) rc = ctx.finish();
}
process.exitCode = rc;
realTimers.setTimeout(() => process.exit(rc), 0);

import { Writable } from "node:stream";
import { lib } from "../harness/hooks.mjs";
import { show } from "../harness/ctx.mjs";

const { DtLogger } = await lib("aws/runtime/dt-logger.ts");
const { logException, createExceptionLogger, truncateEnd, truncateMiddle } = await lib("utils/logging.ts");

function sink() {
  const chunks = [];
  return { chunks, stream: { write: (c) => (chunks.push(String(c)), true) } };
}
function circular(rng) {
  const a = { name: rng.word(), list: [] };
  a.self = a;
  a.list.push({ a });
  return a;
}
class CustomError extends Error {
  constructor(m) {
    super(m);
    this.name = "CustomError";
  }
}
const hostile = (rng) =>
  rng.pick([
    () => rng.text(40),
    () => rng.text(40),
    () => "k=v " + rng.text(10),
    () => rng.int(-1e9, 1e9),
    () => 1.5,
    () => BigInt(rng.int(0, 1e9)) ** 3n,
    () => rng.bool(),
    () => null,
    () => undefined,
    () => rng.date(),
    () => new Date(Number.NaN),
    () => Number.NaN,
    () => "line1\nline2\r\nline3\u2028x",
  ])();
const errorValue = (rng) =>
  rng.pick([
    () => new Error(rng.text(20)),
    () => new TypeError("t\nu"),
    () => new CustomError(rng.text(10)),
    () => rng.word() + rng.text(20),
    () => ({ code: rng.int(1, 9), text: rng.text(10) }),
    () => circular(rng),
    () => [1n, { b: 2n }],
    () => ({ toJSON() { throw new Error("no"); } }),
    () => Object.create(null),
    () => Object.assign(new Error("with cause " + rng.word()), { cause: circular(rng), response: circular(rng) }),
    () => rng.int(1, 99),
  ])();
/** what JSON makes of a custom field value */
const jsonValue = (v) => (typeof v === "bigint" ? v.toString() : v === undefined ? undefined : JSON.parse(JSON.stringify(v)));

export default {
  id: "P05",
  rule: "A case is one log call with random level, method, message, custom fields and error values (including bigints, invalid dates, circular and hostile objects, multi-line text), or one truncation; non-trivial when the emitted line was parsed and compared field by field.",
  assumptions: ["Custom field names do not collide with each other or with the logger's own field names.", "Custom field values are the types the logger declares; the error value is arbitrary."],
  run(ctx) {
    ctx.require("lines", 3000);
    ctx.require("lines.error-object", 200);
    const RESERVED = new Set(["method", "message", "level", "type", "stack", "error", "tookMs", "lambdaName", "runtime", "apikey", "apiKey", "runTime"]);
    for (let i = 0; i < ctx.n(12000, 150000); i++) {
      const rng = ctx.rng;
      const { chunks, stream } = sink();
      const cfg = { writeStream: stream };
      const name = rng.maybe(() => rng.word());
      const rt = rng.maybe(() => rng.word());
      if (name !== undefined) cfg.lambdaName = name;
      if (rt !== undefined) cfg.runTime = rt;
      const envName = rng.maybe(() => "env" + rng.word());
      const envRt = rng.maybe(() => "rt" + rng.word());
      for (const [k, v] of [["AWS_LAMBDA_FUNCTION_NAME", envName], ["AWS_EXECUTION_ENV", envRt]])
        if (v === undefined) delete process.env[k];
        else process.env[k] = v;
      const logger = new DtLogger(cfg);
      const level = rng.pick(["info", "warn", "error", "error", "debug"]);
      if (level === "debug") {
        const v = rng.pick([() => rng.json(2), () => circular(rng), () => 5n, () => undefined, () => rng.text(20)])();
        const r = ctx.attemptSync(() => logger.debug(v));
        ctx.case({ debug: show(v, 200) });
        if (!ctx.expect(r.ok, "debug-throws", "debug logging threw", { v: show(v, 200), e: String(r.error) })) continue;
        const line = oneLine(ctx, chunks, { debug: show(v, 200) });
        if (line) {
          ctx.expect(line.level === "DEBUG", "level", "wrong level", line);
          if (v !== undefined && typeof v !== "bigint" && !(typeof v === "object" && v && "self" in v)) ctx.equal(line.message, jsonValue(v), "debug-message", "debug message changed");
        }
        continue;
      }
      const method = `${rng.word()}.${rng.word()}`;
      const msg = rng.pick([undefined, "", rng.text(40), rng.text(20) + method, "a=b " + rng.word()]);
      const entry = { method };
      if (msg !== undefined) entry.message = msg;
      const fields = {};
      for (let k = rng.int(0, 4); k > 0; k--) {
        const f = rng.pick("ABCDEFGH".split("")) + rng.word(2, 6) + (rng.bool(0.2) ? "Count" : "");
        const plain = f[0].toLowerCase() + f.slice(1);
        if (RESERVED.has(plain) || plain in fields) continue;
        const v = f.endsWith("Count") ? rng.int(0, 1e6) : hostile(rng);
        entry["custom" + f] = v;
        fields[plain] = v;
      }
      if (rng.bool(0.3)) entry.tookMs = rng.int(0, 1e5);
      if (rng.bool(0.2)) entry.type = rng.word();
      const ev = rng.bool(0.5) ? errorValue(rng) : undefined;
      if (ev !== undefined) entry.error = ev;
      const givenStack = rng.bool(0.15) ? "given stack\n  at x" : undefined;
      if (givenStack) entry.stack = givenStack;
      const snapshot = { ...entry };
      const w = () => ({ level, entry: show(entry, 500), line: show(chunks, 700) });
      const r = ctx.attemptSync(() => logger[level](entry));
      ctx.case({ level, e: show(entry, 300) });
      if (!ctx.expect(r.ok, "log-throws", "a log call threw", () => ({ ...w(), e: String(r.error) }))) continue;
      ctx.expect(Object.keys(snapshot).length === Object.keys(entry).length && Object.keys(snapshot).every((k) => Object.is(snapshot[k], entry[k])), "log-mutates", "logging changed the caller's object", w);
      const line = oneLine(ctx, chunks, w);
      if (!line) continue;
      ctx.expect(line.level === level.toUpperCase(), "level", "wrong level on the line", w);
      ctx.expect(line.method === method, "method", "method not on the line", w);
      ctx.expect(line.lambdaName === (name ?? envName ?? "unknown lambda name"), "lambda-name", "lambda name is not the configured or environment one", w);
      ctx.expect(line.runtime === (rt ?? envRt ?? "unknown runtime"), "runtime", "runtime is not the configured or environment one", w);
      ctx.expect(typeof line.message === "string" && line.message.includes(method) && line.message.includes(msg ?? ""), "message", "the logged message lacks the method or the text", w);
      for (const [k, v] of Object.entries(fields)) {
        const want = jsonValue(v);
        ctx.equal(line[k], want, "custom-field", "a custom field is missing or changed", w);
        const text = msg ?? "";
        if (!`${method} ${text}`.includes(`${k}=`)) {
          const s = v instanceof Date && !Number.isNaN(v.getTime()) ? v.toISOString() : typeof v === "string" && !v.includes("=") ? v : typeof v === "number" && Number.isFinite(v) ? String(v) : "";
          ctx.expect(line.message.includes(`${k}=${s}`), "message-field", "a custom field is not in the readable message", () => ({ k, s, ...w() }));
        }
      }
      ctx.expect(!Object.keys(line).some((k) => k.startsWith("custom")), "prefix", "the custom prefix was not removed", w);
      if ("tookMs" in entry) ctx.expect(line.tookMs === entry.tookMs, "took", "tookMs changed", w);
      if (ev instanceof Error) {
        ctx.observe("lines.error-object");
        ctx.expect(line.error === `${ev.name}: ${ev.message}`, "error", "an Error is not logged as name and message", w);
        ctx.expect(line.stack === (givenStack ?? ev.stack), "stack", "the stack is not logged", w);
      } else if (typeof ev === "string") ctx.expect(line.error === ev, "error", "a string error was changed", w);
      else if (ev !== undefined) ctx.expect(typeof line.error === "string" && line.error.length > 0, "error", "an error value left no trace on the line", w);
      else ctx.expect(line.error === undefined && line.stack === givenStack, "error-ghost", "an error or stack appeared from nowhere", w);
    }
    delete process.env.AWS_LAMBDA_FUNCTION_NAME;
    delete process.env.AWS_EXECUTION_ENV;

    // exceptions
    for (let i = 0; i < ctx.n(2500, 20000); i++) {
      const rng = ctx.rng;
      const { chunks, stream } = sink();
      const logger = new DtLogger({ writeStream: stream });
      const ev = rng.bool(0.1) ? rng.pick([undefined, null, 0, "", 5n]) : errorValue(rng);
      const inc = rng.pick([undefined, true, false]);
      const curried = rng.bool();
      const r = ctx.attemptSync(() => (curried ? createExceptionLogger(logger, ...(inc === undefined ? [] : [inc]))(ev) : logException(logger, ev, ...(inc === undefined ? [] : [inc]))));
      ctx.case({ exception: show(ev, 150), inc, curried });
      const w = () => ({ ev: show(ev, 200), inc, line: show(chunks, 500), thrown: r.ok ? undefined : String(r.error) });
      if (!ctx.expect(r.ok, "exception-logger-throws", "logging an exception threw and would mask the original error", w)) continue;
      const line = oneLine(ctx, chunks, w);
      if (!line) continue;
      ctx.expect(line.level === "ERROR", "exception-level", "an exception was not logged as an error", w);
      const text = ev instanceof Error ? ev.message : typeof ev === "string" ? ev : undefined;
      if (text !== undefined) ctx.expect(line.message.includes(text), "exception-text", "the exception's message is not logged", w);
      ctx.expect(line.stack === (ev instanceof Error && inc ? ev.stack : undefined), "exception-stack", "the stack is logged exactly when asked for", w);
    }

    // truncation
    for (let i = 0; i < ctx.n(4000, 40000); i++) {
      const rng = ctx.rng;
      const max = rng.pick([undefined, 1, 2, 10, 50, 100, 1000, rng.int(1, 300)]);
      const m = max ?? 1000;
      const len = rng.pick([0, m - 1, m, m + 1, m + 20, m + 30, m + 100, rng.int(0, 3 * m)]);
      const base = rng.bool(0.5) ? "abcdefghij" : "ab c ";
      const str = base.repeat(Math.ceil(Math.max(0, len) / base.length)).slice(0, Math.max(0, len));
      for (const [n, f] of [["end", truncateEnd], ["middle", truncateMiddle]]) {
        const o = f(str, ...(max === undefined ? [] : [max]));
        ctx.case({ n, m, len });
        const w = { n, max, len: str.length, out: show(o, 300) };
        if (str.length <= m) ctx.expect(o === str, "truncate-short", "a text within the limit was changed", w);
        else {
          ctx.expect(o.length <= str.length + 2, "truncate-longer", "truncation made the text longer", w);
          if (o !== str) {
            const mm = /^([\s\S]*?) ?\[TRUNCATED (\d+) CHARS\] ?([\s\S]*)$/.exec(o);
            ctx.expect(mm && Number(mm[2]) === str.length - m, "truncate-count", "the marker does not give the number of characters removed", w);
            if (mm) ctx.expect(str.trimStart().startsWith(mm[1]) && str.trimEnd().endsWith(mm[3]) && mm[1].length + mm[3].length <= m && (n === "middle" || mm[3] === ""), "truncate-content", "the kept parts are not the start (and end) of the text", w);
            if (mm) ctx.expect(mm[1].length + mm[3].length >= m - 6, "truncate-keeps", "truncation threw away more than the limit requires", w);
            if (mm && n === "middle" && m > 20) ctx.expect(mm[1].length > m / 2 - 6 && mm[3].length > m / 2 - 6, "truncate-balance", "middle truncation did not keep both ends", w);
          } else ctx.expect(str.length - m < 30, "truncate-none", "a text over the limit was not truncated", w);
        }
      }
    }
  },
};
function oneLine(ctx, chunks, w) {
  const all = chunks.join("");
  ctx.observe("lines");
  const lines = all.split("\n");
  const ok = lines.length === 2 && lines[1] === "";
  if (!ctx.expect(ok, "one-line", "a log call did not write exactly one line", w)) return;
  const p = ctx.attemptSync(() => JSON.parse(lines[0]));
  if (!ctx.expect(p.ok && p.value && typeof p.value === "object", "json", "a log line is not a JSON object", w)) return;
  return p.value;
}

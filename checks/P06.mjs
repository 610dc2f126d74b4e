import { lib } from "../harness/hooks.mjs";
import { VirtualClock } from "../harness/clock.mjs";

process.env.AWS_LAMBDA_FUNCTION_NAME = "fn-under-test";
const { HandlerFactory, createJsonLoggingHandler } = await lib("aws/infra/api/handler-factory.ts");
const { StopWatch } = await lib("utils/stop-watch.ts");
const lt = await lib("utils/lead-time-logging.ts");
const { logger } = await lib("aws/runtime/dt-logger-default.ts");

function drain() {
  const res = [];
  for (const l of globalThis.__vlog.lines) for (const line of l.split("\n")) if (line) try { res.push(JSON.parse(line)); } catch { res.push({ bad: line }); }
  globalThis.__vlog.lines.length = 0;
  return res;
}

export default {
  id: "P06",
  rule: "A case is a batch of concurrent invocations of a wrapped handler (default, JSON or custom logging; default or custom error handling; synchronous and delayed success and failure) in virtual time, a random stop-watch history against a reference, or a lead-time log call; non-trivial when the handler ran or time was measured.",
  assumptions: ["Time is virtual; the custom error handlers are synchronous, as declared."],
  async run(ctx) {
    ctx.require("invocations", 1000);
    ctx.require("errors", 200);
    ctx.require("timing-lines", 500);
    ctx.require("watch-steps", 3000);
    const clock = new VirtualClock().install();
    try {
      for (let r = 0; r < ctx.n(1500, 15000); r++) {
        const rng = ctx.rng;
        const f = new HandlerFactory();
        const seenByError = [];
        const errMode = rng.pick(["default", "map", "rethrow", "throw-other"]);
        const other = new Error("other");
        if (errMode !== "default") {
          f.withErrorHandler((e, lg) => {
            seenByError.push([e, lg]);
            if (errMode === "map") return { status: 500, body: "mapped", mappedFrom: e };
            if (errMode === "rethrow") throw e;
            throw other;
          });
        }
        const logMode = rng.pick(["default", "json", "custom"]);
        let wrapped = 0;
        if (logMode === "json") f.withLoggingHandler(createJsonLoggingHandler());
        if (logMode === "custom")
          f.withLoggingHandler(async (m, lg) => {
            wrapped++;
            ctx.expect(lg === logger, "logger-arg", "the logging handler did not get the given logger");
            return await m();
          });
        const calls = [];
        const handler = (event) => {
          calls.push(event);
          const s = event.script;
          if (s.kind === "sync-throw") throw s.error;
          return new Promise((res, rej) => {
            const fin = () => (s.kind === "ok" ? res(s.value) : rej(s.error));
            if (s.delay) setTimeout(fin, s.delay);
            else fin();
          });
        };
        const h = f.createEventHandler(handler, logger);
        drain();
        const n = rng.int(1, 4);
        const evs = rng.array(n, (i) => ({ i, r, script: { kind: rng.pick(["ok", "ok", "fail", "sync-throw"]), delay: rng.pick([0, rng.int(1, 9000)]), value: { status: 200, body: "b" + i }, error: rng.pick([new Error("e" + i), "str", { code: i }, undefined]) } }));
        const outs = [];
        const p = Promise.all(evs.map((e, i) => Promise.resolve().then(() => h(e)).then((value) => (outs[i] = { ok: true, value }), (error) => (outs[i] = { ok: false, error }))));
        const d = await clock.drive(p);
        const lines = drain();
        const w = () => ({ errMode, logMode, scripts: evs.map((e) => e.script), outs, calls: calls.length, lines });
        if (!ctx.expect(d.status === "fulfilled", "never-returns", "a wrapped handler never returned", w)) continue;
        ctx.case({ errMode, logMode, s: evs.map((e) => [e.script.kind, e.script.delay, String(e.script.error)]) });
        ctx.observe("invocations", n);
        ctx.expect(calls.length === n && evs.every((e) => calls.filter((c) => c === e).length === 1), "invoked-once", "the handler was not called exactly once with the event it was given", w);
        let errs = 0;
        evs.forEach((e, i) => {
          const o = outs[i];
          if (e.script.kind === "ok") ctx.expect(o.ok && o.value === e.script.value, "result", "the handler's result was changed", w);
          else {
            errs++;
            if (errMode === "default" || errMode === "rethrow") ctx.expect(!o.ok && Object.is(o.error, e.script.error), "error", "the handler's error did not reach the caller unchanged", w);
            else if (errMode === "map") ctx.expect(o.ok && o.value.body === "mapped" && Object.is(o.value.mappedFrom, e.script.error), "error-mapped", "the error handler's response was not returned", w);
            else ctx.expect(!o.ok && o.error === other, "error-other", "the error handler's own error was lost", w);
          }
        });
        ctx.observe("errors", errs);
        if (errMode !== "default") ctx.expect(seenByError.length === errs && seenByError.every(([, lg]) => lg === logger), "error-handler-once", "the error handler was not called exactly once per failure with the logger", w);
        if (logMode === "custom") ctx.expect(wrapped === n, "logging-handler-once", "the logging handler did not run exactly once per invocation", w);
        else {
          const t = lines.filter((l) => typeof l.tookMs === "number");
          ctx.observe("timing-lines", t.length);
          const want = evs.map((e) => (e.script.kind === "sync-throw" ? 0 : e.script.delay || 0)).sort((a, b) => a - b);
          ctx.equal(t.map((l) => l.tookMs).sort((a, b) => a - b), want, "timing", "the logged execution times are not those of the invocations", w);
          ctx.expect(t.every((l) => String(l.method).startsWith("fn-under-test")), "timing-name", "the timing line does not name the function", w);
        }
        clock.timers.clear();
      }

      // stop watch against a reference
      for (let r = 0; r < ctx.n(800, 8000); r++) {
        const rng = ctx.rng;
        const sw = rng.bool() ? new StopWatch() : StopWatch.createStarted();
        const ref = new Map();
        const D = "DEFAULT";
        if (sw.getTask && sw.getDuration() === 0) {
          // createStarted leaves the default task running
        }
        const startedDefault = (() => {
          try {
            sw.stop();
            return true;
          } catch {
            return false;
          }
        })();
        if (startedDefault) ref.set(D, { total: 0, since: undefined });
        const log = [];
        for (let k = rng.int(3, 25); k > 0; k--) {
          ctx.observe("watch-steps");
          clock.now += rng.pick([0, 1, rng.int(1, 5000)]);
          const t = rng.pick([D, "a", "b", "c"]);
          const arg = t === D ? [] : [t];
          const op = rng.pick(["start", "start", "stop", "stop", "read", "reset"]);
          log.push([op, t, clock.now - clock.t0]);
          const cur = ref.get(t);
          if (op === "start") {
            sw.start(...arg);
            if (cur?.since !== undefined) cur.total += clock.now - cur.since;
            ref.set(t, { total: cur?.total ?? 0, since: clock.now });
          } else if (op === "stop") {
            const o = ctx.attemptSync(() => sw.stop(...arg));
            ctx.expect(o.ok === !!cur, "watch-stop-unknown", "stopping a task that was never started must fail, and only that", { log, t });
            if (cur?.since !== undefined) {
              cur.total += clock.now - cur.since;
              cur.since = undefined;
            }
          } else if (op === "reset" && rng.bool(0.3)) {
            if (t === D || rng.bool(0.2)) {
              sw.reset();
              ref.clear();
            } else {
              sw.reset(t);
              ref.delete(t);
            }
          }
          for (const x of [D, "a", "b", "c"]) {
            const c = ref.get(x);
            const want = c ? c.total + (c.since !== undefined ? clock.now - c.since : 0) : 0;
            const got = sw.getDuration(...(x === D ? [] : [x]));
            ctx.expect(got === want, "watch-duration", "a stop-watch duration is not the time the task was running", { log, task: x, got, want });
          }
        }
        ctx.case({ log });
        const named = sw.getTasks().map((t) => t.taskName).sort();
        ctx.equal(named, [...ref.keys()].filter((k) => k !== D).sort(), "watch-tasks", "the stop-watch lists other tasks than were started", { log });
        for (const t of sw.getTasks()) {
          const c = ref.get(t.taskName);
          ctx.expect(t.isRunning === (c?.since !== undefined), "watch-running", "a task's running state is wrong", { log });
        }
        drain();
        const lv = rng.pick(["info", "warn", "error"]);
        sw.logTasks("A.b", lv);
        const ls = drain();
        ctx.expect(ls.length === ref.size && ls.every((l) => l.level === lv.toUpperCase()), "watch-log", "not exactly one line per task was logged at the asked level", { log, ls });
        for (const [k, c] of ref) {
          const want = c.total + (c.since !== undefined ? clock.now - c.since : 0);
          ctx.expect(ls.some((l) => l.task === (k === D ? "A.b" : k) && l.tookMs === want), "watch-log-duration", "a logged task duration is wrong", { k, want, ls });
        }
      }

      // lead times
      for (let r = 0; r < ctx.n(800, 8000); r++) {
        const rng = ctx.rng;
        drain();
        const vals = [undefined, 0, 5, -3, 1.5, Number.NaN, Number.POSITIVE_INFINITY, 2 ** 53, rng.int(0, 1e6)];
        const a = rng.pick(vals);
        const b = rng.pick(vals);
        const circ = {};
        circ.self = circ;
        const extra = rng.pick([undefined, {}, { customSource: "s" + rng.word() }, { customBad: circ }, { customBig: 5n }]);
        const o = ctx.attemptSync(() => lt.logLeadTimes({ target: "tgt", leadTimeMs: a, processTimeMs: b, ...(extra ? { extraFields: extra } : {}) }));
        const ls = drain();
        ctx.case({ a: String(a), b: String(b), extra: extra && Object.keys(extra) });
        const w = { a, b, extra: extra && Object.keys(extra), ls, thrown: o.ok ? undefined : String(o.error) };
        ctx.expect(o.ok, "lead-time-throws", "lead-time logging threw", w);
        const want = [];
        if (Number.isSafeInteger(a)) want.push(["lead-time", a]);
        if (Number.isSafeInteger(b)) want.push(["process-time", b]);
        ctx.equal(ls.filter((l) => l.level === "INFO").map((l) => [l.name, l.tookMs]), want, "lead-time", "not exactly the usable lead times were logged", w);
        if (extra?.customSource) ctx.expect(ls.every((l) => l.source === extra.customSource && l.target === "tgt"), "lead-time-extra", "extra fields were lost", w);
      }
    } finally {
      clock.uninstall();
    }
  },
};

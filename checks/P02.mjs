import { lib } from "../harness/hooks.mjs";
import { VirtualClock } from "../harness/clock.mjs";

const { retry, retryRequest, RetryLogError, timeoutFunctions, retryPredicates } = await lib("utils/retry.ts");
const { HttpError } = await lib("types/http-error.ts");
const MIN30 = 30 * 60 * 1000;

/** A scripted operation: attempt i behaves as script[i] (last one repeats). */
function operation(clock, script, log) {
  let n = 0;
  return () => {
    const i = n++;
    const s = script[Math.min(i, script.length - 1)];
    log.push({ ev: "start", i, t: clock.now });
    if (s.kind === "sync-throw") {
      log.push({ ev: "end", i, t: clock.now, ok: false });
      throw s.error;
    }
    return new Promise((res, rej) => {
      const fin = () => {
        log.push({ ev: "end", i, t: clock.now, ok: s.kind === "ok" });
        if (s.kind === "ok") res(s.value);
        else rej(s.error);
      };
      if (s.kind === "hang") return;
      if (s.delay > 0) setTimeout(fin, s.delay);
      else fin();
    });
  };
}
/** duration of an attempt as the retrier must see it and whether it fails */
function seen(s) {
  if (s.kind === "sync-throw") return { d: 0, ok: false };
  if (s.kind === "hang" || s.delay > MIN30) return { d: MIN30, ok: false, timeout: true };
  return { d: s.delay > 0 ? s.delay : 0, ok: s.kind === "ok" };
}
const errors = (rng) =>
  rng.pick([
    () => new Error("boom"),
    () => new HttpError(403, "forbidden"),
    () => new HttpError(429, "too many"),
    () => new HttpError(rng.pick([400, 404, 500, 502, 503]), "http"),
    () => "a string",
    () => undefined,
    () => ({ statusCode: 403 }),
  ])();

/** reference model: the exact sequence of attempts and the outcome */
function model(script, retries, timeoutFn, pred, t0) {
  const starts = [];
  let t = t0;
  const max = 1 + Math.max(0, retries);
  for (let k = 0; ; k++) {
    const s = script[Math.min(k, script.length - 1)];
    starts.push(t);
    const r = seen(s);
    t += r.d;
    if (r.ok) return { starts, ok: true, value: s.value, end: t, failures: k };
    if (k + 1 >= max) return { starts, ok: false, end: t, failures: k + 1, why: "exhausted" };
    if (!pred(r.timeout ? new Error("timeout") : s.error)) return { starts, ok: false, end: t, failures: k + 1, why: "predicate" };
    const w = timeoutFn(k + 1);
    t += w > 0 ? w : 0;
  }
}
function levels() {
  const c = { ERROR: 0, WARN: 0 };
  for (const l of globalThis.__vlog.lines)
    for (const line of l.split("\n"))
      try {
        c[String(JSON.parse(line).level).toUpperCase()]++;
      } catch {}
  globalThis.__vlog.lines.length = 0;
  return c;
}

export default {
  id: "P02",
  rule: "A case is one run of the real retrier in virtual time over a scripted operation (success, rejection, synchronous throw, hang, late settlement), a retry count, a waiting function, a predicate and a logging mode, several of them running concurrently; the event log of attempts is compared with a reference model. Non-trivial when at least one attempt failed or hung.",
  assumptions: ["Retry counts are integers where a number of attempts is asserted; time is virtual and attempts cost only scripted time."],
  async run(ctx) {
    ctx.require("attempts", 2000);
    ctx.require("timeouts", 20);
    ctx.require("exhausted", 50);
    ctx.require("recovered", 50);
    ctx.require("predicate-stops", 20);
    const clock = new VirtualClock().install();
    try {
      for (let round = 0; round < ctx.n(6000, 60000); round++) {
        const rng = ctx.rng;
        const par = rng.bool(0.3) ? rng.int(2, 4) : 1;
        const jobs = [];
        levels();
        for (let j = 0; j < par; j++) {
          const failN = rng.int(0, 7);
          const script = [];
          for (let k = 0; k < failN; k++) {
            const kind = rng.pick(["fail", "fail", "fail", "sync-throw", "hang", "late-ok", "late-fail"]);
            const error = errors(rng);
            if (kind === "late-ok") script.push({ kind: "ok", delay: MIN30 + rng.int(1000, 1e6), value: "late" });
            else if (kind === "late-fail") script.push({ kind: "fail", delay: MIN30 + rng.int(1000, 1e6), error });
            else script.push({ kind, delay: rng.pick([0, 0, 5, rng.int(1, 60000), MIN30 - 1000]), error });
          }
          const value = rng.pick([undefined, null, 0, "", false, { a: 1 }, "v", [1]]);
          script.push(rng.bool(0.6) ? { kind: "ok", delay: rng.pick([0, 10, rng.int(1, 5000)]), value } : { kind: "fail", delay: 0, error: errors(rng) });
          const retries = rng.pick([undefined, -3, -1, 0, 1, 2, 3, 4, 5, 6, 8, rng.int(0, 12)]);
          const mode = rng.pick([undefined, RetryLogError.LOG_ALL_AS_ERRORS, RetryLogError.LOG_LAST_RETRY_AS_ERROR_OTHERS_AS_WARNS, RetryLogError.NO_LOGGING]);
          const calls = [];
          const tf = rng.pick([undefined, timeoutFunctions.noTimeout, timeoutFunctions.exponentialTimeout, (k) => k * 700, (k) => -k, () => 42]);
          const pr = rng.pick([undefined, retryPredicates.alwaysRetry, retryPredicates.retryBasedOnStatusCode, (e) => e instanceof Error, () => false]);
          const refTf = tf === undefined || tf === timeoutFunctions.noTimeout ? () => 0 : tf === timeoutFunctions.exponentialTimeout ? (k) => 2 ** k * 1000 : tf;
          const refPr =
            pr === undefined || pr === retryPredicates.alwaysRetry
              ? () => true
              : pr === retryPredicates.retryBasedOnStatusCode
                ? (e) => e instanceof HttpError && (e.statusCode === 403 || e.statusCode === 429)
                : pr;
          const useRequest = rng.bool(0.25);
          const log = [];
          jobs.push({
            script, retries: useRequest ? 5 : (retries ?? 3), mode: useRequest ? RetryLogError.LOG_LAST_RETRY_AS_ERROR_OTHERS_AS_WARNS : (mode ?? RetryLogError.LOG_LAST_RETRY_AS_ERROR_OTHERS_AS_WARNS),
            tf: useRequest ? (k) => 2 ** k * 1000 : refTf,
            pr: useRequest ? (e) => e instanceof HttpError && (e.statusCode === 403 || e.statusCode === 429) : refPr,
            log, calls, useRequest, name: `${tf?.name}/${pr?.name}`,
            go: (op) => {
              if (useRequest) {
                const a = [rng.int(0, 9), { z: 1 }];
                return retryRequest((...args) => {
                  calls.push(args);
                  return op();
                }, ...a).finally(() => {
                  for (const c of calls) ctx.equal(c, a, "request-args", "the retried request was not called with the caller's arguments");
                });
              }
              return retry(op, retries, mode, tf, pr);
            },
          });
        }
        const t0 = clock.now;
        const results = [];
        const ps = jobs.map((job, i) =>
          job.go(operation(clock, job.script, job.log)).then(
            (value) => (results[i] = { ok: true, value, t: clock.now }),
            (error) => (results[i] = { ok: false, error, t: clock.now }),
          ),
        );
        const d = await clock.drive(Promise.all(ps), 3000, 3);
        if (d.status !== "fulfilled") {
          ctx.violation("retry-never-settles", "the retried call did not settle although its bound on attempts and waits had passed", { scripts: jobs.map((j) => j.script), retries: jobs.map((j) => j.retries) });
          clock.timers.clear();
          continue;
        }
        const lv = levels();
        let expErr = 0;
        jobs.forEach((job, i) => {
          const m = model(job.script, job.retries, job.tf, job.pr, t0);
          const got = results[i];
          const starts = job.log.filter((e) => e.ev === "start").map((e) => e.t - t0);
          const w = () => ({ script: job.script, retries: job.retries, fns: job.name, viaRequest: job.useRequest, starts, modelStarts: m.starts.map((x) => x - t0), got: got.ok ? got : { ...got, error: String(got.error) } });
          ctx.observe("attempts", starts.length);
          ctx.case({ s: job.script.map((s) => [s.kind, s.delay, String(s.error)]), r: job.retries, m: job.mode, f: job.name, u: job.useRequest }, m.failures > 0);
          if (job.script.slice(0, m.starts.length).some((s) => seen(s).timeout)) ctx.observe("timeouts");
          if (m.why === "exhausted") ctx.observe("exhausted");
          if (m.why === "predicate") ctx.observe("predicate-stops");
          if (m.ok && m.failures) ctx.observe("recovered");
          ctx.expect(starts.length === m.starts.length, "attempt-count", "the operation was attempted a different number of times than the retry count, the predicate and the first success allow", w);
          ctx.equal(got.ok, m.ok, "outcome", "success or failure was not reported as it happened", w);
          if (m.ok && got.ok) ctx.expect(Object.is(got.value, m.value), "value", "the value of the successful attempt was changed", w);
          if (starts.length === m.starts.length) ctx.equal(starts, m.starts.map((x) => x - t0), "wait", "an attempt did not start right after the previous failure plus the configured wait", w);
          if (got.ok === m.ok) ctx.equal(got.t - t0, m.end - t0, "settle-time", "the outcome was reported at the wrong moment (early, or after needless waiting)", w);
          if (job.mode === RetryLogError.LOG_ALL_AS_ERRORS) expErr += m.failures;
          else if (job.mode === RetryLogError.LOG_LAST_RETRY_AS_ERROR_OTHERS_AS_WARNS && m.why === "exhausted") expErr += 1;
        });
        ctx.expect(lv.ERROR === expErr, "log-level", "failures were not logged as errors as the logging mode says", { errors: lv.ERROR, expErr, modes: jobs.map((j) => j.mode), scripts: jobs.map((j) => j.script), retries: jobs.map((j) => j.retries) });
        clock.timers.clear();
      }
      // illegal retry counts
      for (const r of [101, 1000, Number.POSITIVE_INFINITY, Number.NaN, Number.NEGATIVE_INFINITY, 1e9]) {
        let calls = 0;
        const d = await clock.drive(retry(async () => { calls++; throw new Error("x"); }, r), 500);
        ctx.case({ illegal: String(r) });
        ctx.expect(d.status === "rejected" && calls === 0, "illegal-count", "a retry count that is not finite or over 100 was accepted", { r, calls, status: d.status });
      }
      {
        let calls = 0;
        const d = await clock.drive(retry(async () => { calls++; throw new Error("x"); }, 100), 5000);
        ctx.case({ hundred: 1 });
        ctx.expect(d.status === "rejected" && calls === 101, "hundred", "a retry count of 100 must give exactly 101 attempts", { calls, status: d.status });
      }
    } finally {
      clock.uninstall();
    }
  },
};

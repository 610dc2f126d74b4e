// Log monitors: what is configured is what watches the log, and it alerts when it should.
import fs from "node:fs";
import path from "node:path";
import { Readable } from "node:stream";
import { repo, stub } from "../harness/hooks.mjs";
import { readQueues, Queues } from "../harness/queues.mjs";
import { inScratch, makeLambdaAsset, newApp, synth } from "../harness/infra.mjs";
import { World } from "../harness/world.mjs";
import { search } from "../harness/opensearch.mjs";

for (const m of ["@aws-sdk/client-sts", "@aws-crypto/sha256-browser", "@smithy/node-http-handler", "@smithy/protocol-http", "@smithy/signature-v4"]) stub(m, "opensearch-client.mjs");

const APP = "other/opensearch-monitors";
const CFG = { env: { region: "eu-west-1", account: "123456789012" }, vpcId: "vpc-1", osRoleArn: "arn:aws:iam::999999999999:role/os", osHost: "logs.os.test", osVpcEndpoint: "vpce.os.test", createLambda: true, secretId: "the-secret" };
const DOMAINS = ["marine", "road", "rail", "afir", "status", "cloudfront"];
const ENVS = ["tst", "prd"];
const APPS = ["gate", "load", "store-one", "gate2"];
const LEVELS = ["ERROR", "WARN", "INFO"];
const TEXTS = ["Failed to send the message", "message sent", "Task timed out after 30 seconds", "Duplicate key", "Näkyvyys heikko: failed to read", "to send failed"];
const PHRASES = ["failed to send", "message", "timed out", "FAILED", "näkyvyys heikko", "send the", "to read", "key"];
const LAMBDAS = ["road-update", "road-read", "rail-update", "marine-update"];
const IDS = (n) => `a${n}`;

export default {
  id: "P38",
  rule: "A case is one history of deployments of configured monitors and of log lines they watch; non-trivial when a monitor was evaluated.",
  assumptions: ["OpenSearch is a stand-in that keeps monitors and evaluates their queries and conditions on a log in memory.", "A phrase matches the words of a text in order; other patterns are only asked of fields of one word."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ deployments: 400, "deploy:clean": 150, "deploy:fault": 150, "deploy:failed": 100, "deploy:told": 300, "deploy:success": 200, "stored": 2000, "deploy:many": 6, "fault:list": 30, "fault:delete": 15, "fault:add": 20, "fault:sts": 3, "fault:broken": 5, "fault:garbled": 3, evaluations: 3500, alerts: 1200, quiet: 1500, "trigger:lines": 200, "trigger:range": 100, "trigger:buckets": 80, "trigger:sum": 80, "trigger:always": 50, "edge:threshold": 500, "edge:window": 150, "query:or": 60, "query:not": 100, "buckets:filtered": 20, "buckets:inner": 20, "buckets:many": 5, newest: 80, runbook: 80 })) ctx.require(k, n);
    const w = await new World().open();
    const real = { cwd: process.cwd() };
    const m = { ...(await repo(`${APP}/src/monitor/monitor-builder.ts`)), ...(await repo(`${APP}/src/monitor/triggers.ts`)) };
    try {
      for (let i = 0; i < ctx.n(150, 1500); i++) await inScratch(() => history(ctx, w, m, real));
    } finally {
      process.chdir(real.cwd);
      await w.close();
    }
  },
};

/** monitors as somebody configures them, and what they are to tell */
function configure(ctx, rng, b, k) {
  const env = rng.pick(ENVS);
  const domain = rng.pick(DOMAINS);
  const throttle = rng.pick([5, 30, 120]);
  const destinations = rng.bool(0.3) ? ["dest-1", "dest-2"] : ["dest-1"];
  const range = rng.pick([5, 10, 60, 720]);
  const runbook = rng.bool(0.4) ? `RUNBOOK-${rng.pick(["A1", "ROAD2", "X99"])}` : undefined;
  const subject = rng.pick([b.OSMessageSubjects.LAMBDA_ERRORS, b.OSMessageSubjects.JAVA_ERRORS, "plain words"]);
  const name = `${rng.pick(["Errors", "Hälytys", "Too many"])} ${runbook ?? ""} ${k}`;
  const field = (rng2, l) => rng2.pick(l);
  const words = (t) => t.toLowerCase().split(/[^\p{L}\p{N}_]+/u).filter(Boolean);
  const has = (f, p) => (d) => {
    if (d[f] === undefined) return false;
    return ` ${words(String(d[f])).join(" ")} `.includes(` ${words(p).join(" ")} `);
  };
  // parts of a query, each with what it means
  const leaf = () => {
    const v = rng.pick(PHRASES);
    return rng.pick([
      () => ({ q: b.matchPhrase("message", v), f: has("message", v) }),
      () => { const l = rng.pick(LEVELS); return { q: b.matchPhrase("level", l), f: (d) => d.level === l }; },
      () => { const l = rng.pick(APPS); return { q: b.matchPhrase("app", l), f: has("app", l) }; },
      () => { const p = rng.pick(["road", "rail", "road-u"]); return { q: b.matchPrefix("lambdaName", p), f: (d) => d.lambdaName !== undefined && d.lambdaName.startsWith(p) }; },
      () => ({ q: b.multiMatchPhrase(["message", "log_line"], v), f: (d) => has("message", v)(d) || has("log_line", v)(d) }),
      () => ({ q: b.multiMatchPhrase("log_line", v), f: has("log_line", v) }),
      () => { const p = rng.pick(["*-update", "road-*", "r??d-read"]); const x = new RegExp("^" + p.replaceAll("*", ".*").replaceAll("?", ".") + "$"); return { q: b.matchWildcardPhrase("lambdaName", p), f: (d) => d.lambdaName !== undefined && x.test(d.lambdaName) }; },
      () => { const p = rng.pick(["5..", "[45]0.", "2.*"]); return { q: b.matchRegExpPhrase("httpStatusCode", p), f: (d) => d.httpStatusCode !== undefined && new RegExp(`^(${p})$`).test(d.httpStatusCode) }; },
      () => { const l = rng.pick(LEVELS); const a = rng.pick(LAMBDAS); return { q: b.queryString(`level:${l} AND NOT lambdaName:"${a}"`), f: (d) => d.level === l && !has("lambdaName", a)(d) }; },
      () => ({ q: b.exists("error"), f: (d) => d.error !== undefined }),
      () => { const [x, y] = [rng.pick([null, 10, 200]), rng.pick([null, 300, 1000])]; return { q: b.matchRange("timeToFirstByte", x, y), f: (d) => d.timeToFirstByte !== undefined && (x === null || d.timeToFirstByte >= x) && (y === null || d.timeToFirstByte <= y) }; },
    ])();
  };
  const part = () => {
    if (!rng.bool(0.25)) return leaf();
    const l = rng.array(rng.int(1, 3), leaf);
    ctx.observe("query:or");
    return { q: b.or(...l.map((x) => x.q)), f: (d) => l.some((x) => x.f(d)) };
  };
  const first = rng.array(rng.bool(0.25) ? 1 : 0, leaf);
  const delay = rng.bool(0.35) ? rng.pick([0, 2, 30]) : undefined;
  const config = { domain, env, index: `${env === "prd" ? "log-prd" : "log-tst"}-*`, cron: rng.pick(["0/5 * * * *", "15 6 * * 1-5", "0 0 1 * *"]), rangeInMinutes: range, phrases: first.map((x) => x.q), slackDestinations: destinations, throttleMinutes: throttle, messageSubject: subject, runbookSearchLink: "https://runbook.test/search/SEARCH_TERM?x=1" };
  if (delay !== undefined && rng.bool()) config.delayInMinutes = delay;
  const frozen = JSON.stringify(config);
  const builder = new b.OsMonitorBuilder(name, config);
  const must = first.map((x) => x.f);
  const not = [];
  const spec = { env, config, destinations, throttle, runbook, delay, minutes: range, subject, kind: "lines", threshold: 0 };
  const steps = [];
  if (delay !== undefined && config.delayInMinutes === undefined) steps.push(() => builder.delay(delay));
  if (rng.bool(0.4)) { spec.minutes = rng.pick([3, 15, 45]) + (delay ?? 0); steps.push(() => builder.minutes(spec.minutes)); }
  if (spec.minutes <= (delay ?? 0)) { spec.minutes = delay + 5; steps.push(() => builder.minutes(spec.minutes)); }
  for (let i = rng.pick([0, 0, 1, 1, 2]); i > 0; i--) {
    const x = part();
    must.push(x.f);
    steps.push(() => builder.and(x.q));
  }
  if (rng.bool(0.15)) {
    const two = [leaf(), leaf()];
    must.push(two[0].f, two[1].f);
    must.splice(-1);
    steps.push(() => builder.and(two[0].q));
  }
  if (rng.bool(0.4)) {
    const l = rng.array(rng.int(1, 2), part);
    not.push(...l.map((x) => x.f));
    ctx.observe("query:not");
    steps.push(() => builder.not(...l.map((x) => x.q)));
  }
  if (rng.bool(0.3)) {
    const [how, f, v] = rng.pick([["level", "level", rng.pick(LEVELS)], ["logLine", "log_line", rng.pick(PHRASES)], ["app", "app", rng.pick(APPS)], ["loggerName", "logger_name", "fi.x.Job"], ["logGroup", "@log_group", "/aws/lambda/road"], ["logStream", "@log_stream", "s1"], ["match", "message", rng.pick(PHRASES)]]);
    must.push(has(f, v));
    steps.push(() => (how === "match" ? builder.match(f, v) : builder[how](v)));
  }
  // what it alerts of
  const trig = rng.pick(["default", "lines", "lines", "range", "range", "buckets", "buckets", "sum", "sum", "always"]);
  let alarm;
  if (trig === "lines") {
    spec.threshold = rng.pick([0, 1, 3, 20, 12000]);
    alarm = () => builder.moreThan(...(spec.threshold || rng.bool() ? [spec.threshold] : []));
  } else if (trig === "range") {
    Object.assign(spec, { kind: "range", lower: rng.pick([0, 1, 3, 20]), upper: 0 });
    spec.upper = spec.lower + rng.pick([0, 1, 3, 10, 11000]);
    alarm = () => builder.notInRange(spec.lower, spec.upper);
  } else if (trig === "always") {
    spec.kind = "always";
    alarm = () => builder.always();
  } else if (trig === "sum") {
    Object.assign(spec, { kind: "sum", field: rng.pick(["bytes", "bytes", "statisticValue"]), lower: rng.pick([0, 1, 2]), upper: rng.pick([2, 5, 4000]) });
    alarm = () => builder.sum(spec.field, spec.lower, spec.upper);
  } else if (trig === "buckets") {
    const f = rng.pick(["lambdaName", "alert.id", "alert.correlation_id.keyword"]);
    const given = rng.bool(0.4) ? "per_thing" : undefined;
    const filter = rng.bool(0.5) ? rng.int(1, 3) : undefined;
    const inner = rng.bool(0.3);
    const innerOnly = inner && filter !== undefined && rng.bool(0.5);
    Object.assign(spec, { kind: "buckets", field: f.replace(".keyword", ""), more: filter, inner: inner && (filter !== undefined), agg: given ?? f.replaceAll(".", "_"), threshold: rng.pick([0, 0, 1, 2, 10, 14]), onInner: innerOnly });
    const bucketFilter = filter === undefined ? undefined : innerOnly ? { name: "enough", bucketPaths: { count: "per_level._bucket_count" }, script: `params.count > ${filter}` } : { name: "enough", bucketPaths: { count: "_count" }, script: `params.count > ${filter}` };
    const innerAggregate = inner ? b.aggregateTerms("level", { name: "per_level" }) : undefined;
    steps.push(() => builder.aggregate(b.aggregateTerms(f, { name: given, bucketFilter, innerAggregate })));
    alarm = () => builder.aggregationBucketsMoreThan(spec.agg, ...(spec.threshold ? [spec.threshold] : []));
  }
  if (rng.bool(0.3)) {
    spec.subject = "changed words";
    // the trigger is to be made after this
    builder.withMessage("changed words", rng.bool() ? "https://link.test" : undefined);
    if (!alarm) alarm = () => builder.moreThan();
  }
  if (alarm) steps.push(alarm);
  const chained = rng.bool(0.8) ? rng.shuffle(steps) : steps;
  for (const s of chained) ctx.expect(s() === builder, "builder:chain", "a step of a monitor does not continue it", { name });
  const built = builder.build();
  // one configuration serves many monitors
  ctx.expect(JSON.stringify(config) === frozen, "builder:config", "building a monitor changes the configuration it shares with others", { before: frozen, after: JSON.stringify(config) });
  return { name: `${domain.toUpperCase()} ${env.toUpperCase()} ${name}`, built, spec, matches: (d, now) => d.index.startsWith(env === "prd" ? "log-prd-" : "log-tst-") && d.env === env && Date.parse(d["@timestamp"]) >= now - spec.minutes * 60e3 && (spec.delay === undefined || Date.parse(d["@timestamp"]) <= now - spec.delay * 60e3) && must.every((f) => f(d)) && !not.some((f) => f(d)), steps: steps.length };
}

async function history(ctx, w, b, real) {
  const rng = ctx.rng.fork();
  w.now = Date.UTC(2024, rng.int(0, 11), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59), rng.int(0, 59), rng.int(0, 999));
  const many = rng.bool(0.12);
  const monitors = rng.array(rng.int(2, 9), (i) => configure(ctx, rng, b, i));
  if (many) {
    ctx.observe("deploy:many");
    for (let i = 0; i < rng.int(195, 240); i++) monitors.push({ ...monitors[0], name: `${monitors[0].name}-${i}`, built: { ...monitors[0].built, name: `${monitors[0].name}-${i}` }, copy: true });
  }
  // ---- deployed as configured ----
  for (const d of ["dist/lambda/update-os-monitors", "cdk.out"]) fs.mkdirSync(d, { recursive: true });
  makeLambdaAsset("update-os-monitors");
  const { UpdateOSMonitorsStack } = await repo(`${APP}/src/monitor-stack.ts`);
  const app = newApp({ "aws:cdk:enable-asset-metadata": true });
  const cfn = synth(app, new UpdateOSMonitorsStack(app, "S", { ...CFG, monitors: monitors.map((x) => x.built) }));
  const conf = readQueues(cfn, APP);
  const fns = Object.values(conf.functions).filter((f) => f.wanted.includes("update-os-monitors"));
  ctx.expect(fns.length === 1, "stack:lambda", "there is no function that updates the monitors", { n: fns.length });
  if (!fns[0]) return;
  const fn = fns[0];
  fn.rel ??= `${APP}/src/lambda/update-os-monitors.ts`;
  const trigger = Object.values(cfn.resources).find((r) => /Trigger/.test(r.Type));
  ctx.expect(trigger, "stack:trigger", "monitors are not updated when they are deployed", { types: [...new Set(Object.values(cfn.resources).map((r) => r.Type))] });
  const q = new Queues({ ...conf, functions: { [fn.id]: { ...fn } } }, { rng });
  q.baseEnv = Object.fromEntries(Object.entries(process.env).filter(([k]) => k.startsWith("AWS_")));
  ctx.expect(fs.existsSync("dist/lambda/update-os-monitors/monitors.json"), "stack:monitors", "the function is deployed without its monitors", {});
  const at = path.resolve("dist/lambda/update-os-monitors");

  // ---- OpenSearch ----
  let stored = new Map(); // id -> { doc, run }
  let ids = 0;
  let run = 0;
  let fault = () => undefined;
  let hits = {};
  let stsFails = false;
  const keep = (doc) => {
    const id = `m-${++ids}_${rng.pick(["x", "Ä", "y z", "-"]).replace(/[^\w-]/g, "")}`;
    stored.set(id, { doc, run });
    return id;
  };
  globalThis.__os = {
    async assumeRole(i) {
      if (stsFails) {
        hits.sts = (hits.sts ?? 0) + 1;
        ctx.observe("fault:sts");
        throw new Error("Throttling");
      }
      ctx.expect(i.RoleArn === CFG.osRoleArn, "os:role", "another role is assumed", { role: i.RoleArn });
      return { Credentials: { AccessKeyId: "AK-1", SecretAccessKey: "SK-1", SessionToken: "ST-1" } };
    },
    async handle(r) {
      const header = (n) => Object.entries(r.headers).find(([k]) => k.toLowerCase() === n)?.[1];
      ctx.expect(r.hostname === CFG.osVpcEndpoint && header("host") === CFG.osHost && header("authorization") === "AK-1/SK-1/ST-1/eu-west-1/es" && r.signed === r.body && /^https/.test(r.protocol), "os:asked", "OpenSearch is asked at another place, or without the role", { host: r.hostname, h: r.headers });
      for (let i = rng.int(0, 3); i > 0; i--) await new Promise((x) => setImmediate(x));
      const p = r.path.replace(/\/$/, "");
      const what = p.endsWith("/_search") ? "list" : r.method === "DELETE" ? "delete" : "add";
      const f = fault(what, r);
      if (f) {
        hits[what] = (hits[what] ?? 0) + 1;
        ctx.observe(`fault:${what}`);
        if (typeof f === "string") ctx.observe(`fault:${f}`);
      }
      const answer = (status, body) => {
        const bytes = Buffer.isBuffer(body) ? body : Buffer.from(JSON.stringify(body));
        // in pieces, wherever they fall
        const cut = [0, ...rng.array(rng.int(0, 4), () => rng.int(0, bytes.length)), bytes.length].sort((a, c) => a - c);
        const parts = cut.slice(1).map((e, i) => bytes.subarray(cut[i], e)).filter((x) => x.length);
        const body2 = f === "broken" ? Readable.from((async function* () { yield parts[0] ?? Buffer.from("{"); throw Object.assign(new Error("aborted"), { code: "ECONNRESET" }); })()) : Readable.from(parts);
        body2.statusMessage = "s";
        return { response: { statusCode: status, reason: "s", headers: {}, body: body2 } };
      };
      if (f === "connection") throw Object.assign(new Error("socket hang up"), { code: "ECONNRESET" });
      if (typeof f === "number") return answer(f, f === 403 ? { message: "denied" } : { error: { type: "x", reason: "no" }, status: f });
      let a;
      if (what === "list") {
        const body = JSON.parse(r.body);
        ctx.expect((body.size ?? 10) <= 10000, "os:window", "more is asked for at once than can be had", { size: body.size });
        a = answer(200, { took: 1, timed_out: false, hits: { total: { value: stored.size, relation: "eq" }, hits: [...stored].slice(0, body.size ?? 10).map(([_id, s]) => ({ _index: ".opendistro-alerting-config", _id, _source: { ...s.doc, enabled: true } })) } });
      } else if (what === "delete") {
        const id = decodeURIComponent(p.slice(p.lastIndexOf("/") + 1));
        const was = stored.delete(id);
        a = answer(was ? 200 : 404, was ? { _id: id, result: "deleted" } : { error: { type: "alerting_exception", reason: "Monitor not found." }, status: 404 });
      } else {
        ctx.expect(r.method === "POST" && p === "/_plugins/_alerting/monitors", "os:path", "monitors are added in another way than OpenSearch has", { method: r.method, path: r.path });
        const id = keep(JSON.parse(r.body));
        a = answer(201, { _id: id, _version: 1, monitor: {} });
      }
      if (f === "lost") throw Object.assign(new Error("socket hang up"), { code: "ECONNRESET" });
      return f === "garbled" ? answer(200, Buffer.from(rng.pick(["<html>gateway</html>", "", "{\"hits\":"]))) : a;
    },
  };
  // ---- Slack ----
  let told = [];
  let slackFails = false;
  w.secrets.set(fn.env.SECRET_ID ?? CFG.secretId, { reportUrl: `${w.url}/report`, slackAlarmHook: `${w.url}/alarm` });
  w.serve = async (r) => {
    if (r.path !== "/report" && r.path !== "/alarm") return { status: 404, body: "no" };
    if (slackFails) return { status: 400, body: "no" };
    told.push({ to: r.path, text: JSON.parse(r.body).text, ok: state() === undefined });
    return { body: "ok" };
  };
  /** what is amiss with the stored monitors */
  function state() {
    const want = new Map(monitors.map((x) => [x.name, x]));
    const seen = new Set();
    for (const [, s] of stored) {
      const n = s.doc?.name;
      if (!want.has(n)) return `unexpected ${n}`;
      if (seen.has(n)) return `twice ${n}`;
      if (s.run !== run) return `old ${n}`;
      seen.add(n);
    }
    const missing = [...want.keys()].find((n) => !seen.has(n));
    return missing === undefined ? undefined : `missing ${missing}`;
  }
  const deploy = async () => {
    run++;
    hits = {};
    told = [];
    let error;
    let timer;
    process.chdir(at);
    try {
      const h = await q.load(fn.id);
      const late = new Promise((_, no) => { timer = setTimeout(() => no(new Error("HUNG")), 15000); });
      await Promise.race([h(), late]);
    } catch (e) {
      error = e ?? new Error("rejected with nothing");
    } finally {
      clearTimeout(timer);
      process.chdir(real.cwd);
    }
    ctx.observe("deployments");
    const wrong = state();
    const faults = Object.keys(hits);
    const about = { faults, wrong, error: String(error ?? ""), told: told.map((t) => [t.to, String(t.text).slice(0, 150)]), monitors: monitors.length };
    ctx.expect(error?.message !== "HUNG", "deploy:hung", "an update of the monitors never ends", about);
    if (!faults.length) {
      ctx.observe("deploy:clean");
      ctx.expect(!error, "deploy:failure", "an update of the monitors fails although nothing did", about);
      ctx.expect(!wrong, "deploy:state", "an update leaves other monitors than those configured", about);
    } else ctx.observe("deploy:fault");
    ctx.expect(!wrong || error, "deploy:silent", "an update that leaves other monitors than those configured succeeds", about);
    const good = told.filter((t) => t.to === "/report");
    const bad = told.filter((t) => t.to === "/alarm");
    ctx.expect(good.every((t) => t.ok), "deploy:praise", "an update is told to have succeeded that did not", about);
    if (!slackFails) {
      ctx.expect(error ? bad.length === 1 && !good.length : good.length === 1 && !bad.length, "deploy:told", "how an update went is not told, or told otherwise", about);
      if (error) ctx.expect(bad.every((t) => typeof t.text === "string" && t.text.length > 3 && !/cannot read|undefined/i.test(t.text)), "deploy:text", "nothing is told of what failed", about);
      else ctx.expect(good.every((t) => new RegExp(`\\b${monitors.length}\\b`).test(t.text)), "deploy:count", "another number of monitors is told than there is", about);
      ctx.observe("deploy:told");
    }
    ctx.observe(error ? "deploy:failed" : "deploy:success");
    return error;
  };
  // what an earlier deployment left
  for (let i = 0; i < (many && rng.bool() ? rng.int(180, 260) : rng.int(0, 7)); i++) keep({ name: rng.bool(0.4) ? rng.pick(monitors).name : `OLD ${i}`, type: "monitor" });
  for (let k = 0; k < rng.int(2, 4); k++) {
    const kind = rng.pick([undefined, "add", "add", "delete", "delete", "list", "any", "sts"]);
    const how = () => rng.pick([400, 403, 429, 500, 503, "connection", "broken", "garbled", "lost"]);
    if (kind === "sts") stsFails = true;
    else if (kind === "list") {
      // the first or the last of them
      const which = rng.int(0, 1);
      let n = 0;
      fault = (x) => (x === "list" && n++ === which ? how() : undefined);
    } else if (kind) {
      const chance = rng.pick([0.1, 0.5, 1]);
      const l = kind === "any" ? ["add", "delete", "list"] : [kind];
      fault = (x) => (l.includes(x) && rng.bool(chance) ? how() : undefined);
    }
    slackFails = rng.bool(0.1);
    await deploy();
    [fault, stsFails, slackFails] = [() => undefined, false, false];
    // somebody removes or adds one by hand
    if (rng.bool(0.3)) keep({ name: "BY HAND", type: "monitor" });
    if (rng.bool(0.3) && stored.size) stored.delete(rng.pick([...stored.keys()]));
  }
  if (await deploy()) return;
  ctx.observe("stored", stored.size);

  // ---- the log ----
  let evaluated = 0;
  for (let round = 0; round < 8; round++) {
    const now = w.now;
    const edges = monitors.filter((x) => !x.copy).flatMap((x) => [now - x.spec.minutes * 60e3, ...(x.spec.delay === undefined ? [] : [now - x.spec.delay * 60e3])]);
    const indices = new Map([["log-prd-1", []], ["log-prd-2", []], ["log-tst-1", []], ["other-1", []]]);
    const wide = rng.bool(0.25);
    if (wide) ctx.observe("buckets:many");
    const big = rng.bool(0.2);
    for (let i = 0; i < rng.pick([3, 20, 60, 90]); i++) {
      const t = rng.bool(0.25) ? rng.pick(edges) + rng.pick([-1, 0, 1]) : now - rng.int(0, rng.pick([3, 20, 70, 800])) * 60e3 - rng.int(0, 59999);
      if (edges.some((e) => Math.abs(e - t) <= 1)) ctx.observe("edge:window");
      const some = (v, p = 0.7) => (rng.bool(p) ? v : undefined);
      const d = { "@timestamp": new Date(t).toISOString(), env: rng.pick(ENVS), level: some(rng.pick(LEVELS), 0.9), app: some(rng.pick(APPS)), message: some(rng.pick(TEXTS), 0.85), log_line: some(rng.pick(TEXTS)), lambdaName: some(rng.pick(LAMBDAS)), method: "m" + i, logger_name: some("fi.x.Job"), "@log_group": some("/aws/lambda/road"), "@log_stream": some("s1"), httpStatusCode: some(rng.pick(["200", "404", "500", "503"])), error: some("e", 0.4), timeToFirstByte: some(rng.pick([0, 9, 10, 150, 200, 300, 301, 1000, 2000])), bytes: rng.pick([0, 1000, 400000, 1000000, 2000000]), statisticValue: rng.pick([0, 999999, 1000000, 7000000]), "alert.id": some(IDS(rng.int(1, wide ? 40 : 4)), 0.9), "alert.correlation_id": some(IDS(rng.int(1, wide ? 40 : 4)), 0.9), n: big && rng.bool(0.08) ? 11500 : 1 };
      const index = rng.bool(0.1) ? "other-1" : d.env === "prd" || rng.bool(0.1) ? rng.pick(["log-prd-1", "log-prd-2"]) : "log-tst-1";
      d.index = index;
      for (const k2 of Object.keys(d)) if (d[k2] === undefined) delete d[k2];
      indices.get(index).push(d);
    }
    const all = [...indices.values()].flat();
    for (const x of monitors) {
      if (x.copy) continue;
      const doc = [...stored.values()].find((s) => s.doc.name === x.name).doc;
      evaluated++;
      evaluate(ctx, x, doc, indices, all, now);
    }
  }
  ctx.case(`${monitors.length}-${stored.size}-${ids}-${evaluated}-${w.now}`, evaluated > 0);
}

/** what OpenSearch does with a stored monitor when its time comes */
function evaluate(ctx, x, doc, indices, all, now) {
  const { spec } = x;
  const witness = { name: x.name, spec: { ...spec, config: undefined } };
  ctx.observe("evaluations");
  ctx.observe(`trigger:${spec.kind}`);
  ctx.expect(doc.type === "monitor" && doc.monitor_type === "query_level_monitor" && doc.enabled !== false, "monitor:kind", "a stored monitor is not one that queries", witness);
  ctx.expect(doc.schedule?.cron?.expression === spec.config.cron && doc.schedule.cron.timezone === "UTC" && doc.ui_metadata?.schedule?.cronExpression === spec.config.cron, "monitor:schedule", "a monitor runs at other times than configured", { ...witness, schedule: doc.schedule });
  const input = doc.inputs?.[0]?.search;
  ctx.expect(doc.inputs?.length === 1 && input, "monitor:input", "a monitor has not one query", witness);
  const a = search(indices, input.indices.join(","), "_search", input.query);
  if (a.unsupported) throw new Error("the stand-in does not know " + a.unsupported);
  const hit = all.filter((d) => x.matches(d, now));
  const n = hit.reduce((s, d) => s + d.n, 0);
  ctx.expect(a.status === 200 && a.body.hits.total.value === n, "monitor:lines", "a monitor looks at other lines than it describes", { ...witness, got: a.body.hits?.total?.value, want: n, query: input.query });
  if (a.status !== 200 || a.body.hits.total.value !== n) return;
  // what it is to alert of
  let want;
  let number;
  if (spec.kind === "lines") {
    want = n > spec.threshold;
    number = n;
    if (Math.abs(n - spec.threshold) <= 1) ctx.observe("edge:threshold");
  } else if (spec.kind === "range") {
    want = n < spec.lower || n > spec.upper;
    number = n;
    if (Math.abs(n - spec.lower) <= 1 || Math.abs(n - spec.upper) <= 1) ctx.observe("edge:threshold");
  } else if (spec.kind === "always") want = true;
  else if (spec.kind === "sum") {
    number = Math.floor(hit.reduce((s, d) => s + d.n * d[spec.field], 0) / 1e6);
    want = number < spec.lower || number > spec.upper;
    if ([spec.lower, spec.upper].includes(number)) ctx.observe("edge:threshold");
  } else {
    const by = new Map();
    for (const d of hit) if (d[spec.field] !== undefined) by.set(d[spec.field], [...(by.get(d[spec.field]) ?? []), d]);
    const size = (l) => (spec.onInner ? new Set(l.map((d) => d.level).filter(Boolean)).size : l.reduce((s, d) => s + d.n, 0));
    const l = [...by.values()].filter((l2) => spec.more === undefined || size(l2) > spec.more);
    if (spec.more !== undefined && by.size !== l.length) ctx.observe("buckets:filtered");
    if (spec.inner) ctx.observe("buckets:inner");
    number = l.length;
    want = number > spec.threshold;
  }
  ctx.expect(doc.triggers?.length === 1, "monitor:trigger", "a monitor has not one trigger", witness);
  const t = doc.triggers[0].query_level_trigger;
  const results = [a.body];
  let fires;
  try {
    fires = new Function("ctx", "return " + t.condition.script.source)({ results });
  } catch (e) {
    fires = String(e);
  }
  ctx.expect(fires === want, `alert:${spec.kind}`, want ? "a monitor does not alert although it should" : "a monitor alerts although it should not", { ...witness, fires, number, n, condition: t.condition.script.source, aggs: JSON.stringify(a.body.aggregations ?? {}).slice(0, 300) });
  ctx.observe(want ? "alerts" : "quiet");
  if (fires !== want || !want) return;
  // what is told, and to whom
  ctx.equal(t.actions.map((y) => y.destination_id).sort(), [...spec.destinations].sort(), "alert:to", "an alert is not told to each of its destinations once", witness);
  for (const y of t.actions) {
    const s = render(y.subject_template.source, { results });
    const m = render(y.message_template.source, { results });
    ctx.expect(y.throttle_enabled === true && y.throttle?.value === spec.throttle && y.throttle.unit === "MINUTES", "alert:throttle", "an alert is repeated sooner or later than configured", { ...witness, throttle: y.throttle });
    if (spec.kind === "always") ctx.expect(n ? /:red_circle:/.test(s) && !/:large_green_circle:/.test(s) : /:large_green_circle:/.test(s) && !/:red_circle:/.test(s), "alert:colour", "a status tells that all is well when it is not, or otherwise", { ...witness, n, s });
    else {
      ctx.expect(/:red_circle:/.test(s), "alert:colour", "an alert does not look like one", { ...witness, s });
      const tail = s.slice(s.lastIndexOf(", was ") + 6);
      ctx.expect(s.includes(", was ") && (spec.kind === "sum" ? new RegExp(`^${Math.floor(number / 1000)}(\\.\\d+)? GB \\(${number} MB\\)$`).test(tail) : tail === String(number)), "alert:number", "an alert tells another number than it was raised for", { ...witness, number, s });
      const limits = spec.kind === "range" ? [spec.lower, spec.upper] : spec.kind === "sum" ? [spec.lower, spec.upper] : [spec.threshold];
      ctx.expect(limits.every((l) => new RegExp(`(?<![\\d.])${l}(?![\\d.]\\d)`).test(s)), "alert:limits", "an alert does not tell what was allowed", { ...witness, s });
    }
    if (spec.runbook) {
      ctx.observe("runbook");
      ctx.expect(s.includes(`<https://runbook.test/search/${spec.runbook}?x=1|${spec.runbook}>`), "alert:runbook", "an alert does not link its instructions", { ...witness, s });
    } else ctx.expect(s.includes(x.name), "alert:name", "an alert does not tell its monitor", { ...witness, s });
    if (spec.subject.includes("{{")) {
      if (!hit.length) continue;
      ctx.observe("newest");
      const newest = Math.max(...hit.map((d) => Date.parse(d["@timestamp"])));
      ctx.expect(m.startsWith(new Date(newest).toISOString()), "alert:newest", "an alert does not tell its newest line", { ...witness, m });
    } else ctx.expect(m.startsWith(spec.subject), "alert:message", "an alert has another message than configured", { ...witness, m });
  }
}

/** mustache, as far as alerts use it */
function render(text, ctx) {
  const get = (p) => p.split(".").slice(1).reduce((o, k) => (o === undefined || o === null ? undefined : o[k]), ctx);
  return text
    .replace(/\{\{([#^])([^}]+)\}\}(.*?)\{\{\/\2\}\}/gs, (_, k, p, inner) => (Boolean(get(p)) === (k === "#") ? inner : ""))
    .replace(/\{\{([^}#^/]+)\}\}/g, (_, p) => String(get(p) ?? ""));
}

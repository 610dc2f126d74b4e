import http from "node:http";
import zlib from "node:zlib";
import { Readable } from "node:stream";
import fs from "node:fs";
import { lib } from "../harness/hooks.mjs";
import { FakePg } from "../harness/fakepg.mjs";
import { FakeAws } from "../harness/fakeaws.mjs";
import { build, inScratch, cdkMod, cdk } from "../harness/infra.mjs";
import { target, text, iamMatch } from "../harness/cfn.mjs";
import { show } from "../harness/ctx.mjs";

const U = await lib("aws/infra/canaries/url-checker.ts");
const { DatabaseCountChecker } = await lib("aws/infra/canaries/database-checker.ts");
const { DatabaseCanary } = await lib("aws/infra/canaries/database-canary.ts");
const { UrlCanary } = await lib("aws/infra/canaries/url-canary.ts");
const { DigitrafficCanaryRole } = await lib("aws/infra/canaries/canary-role.ts");
const { DigitrafficRestApi } = await lib("aws/infra/stack/rest-api.ts");
const { SlackApi } = await lib("utils/slack.ts");
const { MediaType } = await lib("aws/types/mediatypes.ts");
const synthetics = cdkMod("aws-synthetics");
const GEO = MediaType.APPLICATION_GEOJSON;
const JSON_TYPE = MediaType.APPLICATION_JSON;
class Disagree extends Error {}

export default {
  id: "P18",
  rule: "A case is one canary run (a list of checks against a generated service or database, executed by the real checker in a model of the canary runtime), one canary deployed by the library, or one notification; non-trivial when a step was executed or a resource judged.",
  assumptions: ["The canary runtime calls the step callback with the response and marks the step failed exactly when the callback fails.", "A run is reported as failed when a step failed or the handler failed."],
  // a failing check may leave the rejection of a sibling check behind: both report the same failure
  ignoreUnhandled: () => true,
  async run(ctx) {
    for (const [k, n] of Object.entries({ runs: 300, "runs-passing": 100, "runs-failing": 100, "db-runs": 100, "db-failing": 30, canaries: 25, notifications: 60 })) ctx.require(k, n);
    await urls(ctx, ctx.rng);
    await databases(ctx, ctx.rng);
    await inScratch(() => {
      fs.mkdirSync("dist/nodejs/node_modules", { recursive: true });
      for (const n of ["alpha", "beta-x", "gamma"]) for (const x of ["", "-x", "-y", "-db"]) fs.writeFileSync(`dist/nodejs/node_modules/${n}${x}.js`, "exports.handler=()=>{};exports.main=()=>{};\n");
      for (let i = 0; i < ctx.n(40, 300); i++) deploy(ctx, ctx.rng, i);
    });
    await slack(ctx, ctx.rng);
  },
};

const feature = (rng) => ({ type: "Feature", properties: { id: rng.int(1, 99) }, geometry: { type: "Point", coordinates: [rng.int(-180, 180), rng.int(-90, 90)] } });
function body(rng, kind) {
  if (kind === "geojson") return JSON.stringify({ type: "FeatureCollection", features: rng.array(rng.int(0, 4), () => feature(rng)) });
  if (kind === "bad-geojson") return JSON.stringify(rng.pick([{ type: "FeatureCollection" }, { type: "FeatureCollection", features: [{ type: "Feature" }] }, { type: "FeatureCollection", features: [{ type: "Feature", properties: {}, geometry: { type: "Point", coordinates: "x" } }] }, feature(rng), { type: "Thing", features: [] }, []]));
  if (kind === "bad-json") return rng.pick(["{", "", "<html>", "[1,", "undefined"]);
  return JSON.stringify(rng.pick([{ ok: rng.int(0, 9), s: rng.text(20) }, [], [1, 2, "å"], "x", 0]));
}
function respond(r, rng) {
  let data = Buffer.from(r.body);
  const headers = {};
  for (const [k, v] of Object.entries(r.headers)) if (v !== undefined) headers[k.toLowerCase()] = v;
  if (r.gzip) {
    data = zlib.gzipSync(data);
    headers["content-encoding"] = "gzip";
  }
  const chunks = [];
  for (let i = 0; i < data.length; ) {
    const n = rng.int(1, Math.max(1, data.length));
    chunks.push(data.subarray(i, i + n));
    i += n;
  }
  const res = new Readable({ read() { const c = chunks.shift(); if (c) setImmediate(() => this.push(c)); else this.push(null); } });
  return Object.assign(res, { statusCode: r.status, statusMessage: r.message, headers });
}

async function urls(ctx, rng) {
  const aws = await new FakeAws().start();
  Object.assign(process.env, { AWS_REGION: "eu-west-1", AWS_ACCESS_KEY_ID: "AKID", AWS_SECRET_ACCESS_KEY: "SECRET" });
  const keys = new Map();
  aws.handle = async (r) => {
    const id = /^\/apikeys\/(.+)$/.exec(r.path)?.[1];
    if (r.method !== "GET" || !keys.has(id)) return { status: 404, headers: { "x-amzn-errortype": "NotFoundException" }, body: JSON.stringify({ message: "Invalid API Key identifier specified" }) };
    return { body: JSON.stringify({ id, name: "k", enabled: true, ...(r.query.get("includeValue") === "true" ? { value: keys.get(id) } : {}) }) };
  };
  try {
    for (let i = 0; i < ctx.n(1500, 15000); i++) {
      const S = (globalThis.__synthetics = { steps: [], config: [], rethrow: rng.bool() });
      const host = rng.word(3, 8) + ".execute-api.eu-west-1.amazonaws.com";
      const how = rng.pick(["plain", "key", "create", "createV2", "missing-key"]);
      let key;
      const keyId = rng.word(8, 10);
      if (how !== "plain" && how !== "missing-key") key = "K3y" + rng.word(12, 20);
      let checker;
      if (how === "create" || how === "createV2") keys.set(keyId, key);
      if (how === "plain") checker = new U.UrlChecker(host);
      else if (how === "key") checker = new U.UrlChecker(host, key);
      else {
        process.env.hostname = host;
        process.env.apiKeyId = keyId;
        const r = await ctx.attempt(() => (how === "createV2" ? U.UrlChecker.createV2() : U.UrlChecker.create(host, keyId)));
        if (how === "missing-key") {
          ctx.expect(!r.ok, "missing-key", "a checker was created although its API key does not exist", () => ({ keyId }));
          ctx.case(["missing-key", keyId], true);
          continue;
        }
        if (!ctx.expect(r.ok, "create", "a checker could not be created from the id of its key", () => ({ how, keyId, error: r.error?.stack }))) continue;
        checker = r.value;
      }
      const flat = S.config.map((c) => c.join("="));
      ctx.expect(flat.includes("withFailedCanaryMetric=true"), "failed-metric", "failures of the canary are not counted", () => flat);
      for (const part of ["RequestHeaders", "ResponseBody", "RequestBody", "ResponseHeaders"]) ctx.expect(flat.includes(`withInclude${part}=false`), "leak-config", "the canary report would include headers or bodies", () => flat);
      const steps = rng.array(rng.int(1, 5), () => step(rng));
      const queue = [];
      S.serve = async (options) => {
        const st = queue.at(-1);
        st.options = options;
        if (st.r.network) throw new Error("ECONNREFUSED");
        return respond(st.r, rng);
      };
      let handlerFailed;
      let executed = 0;
      for (const st of steps) {
        queue.push(st);
        executed++;
        const r = await ctx.attempt(() => st.call(checker));
        st.done = S.steps.at(-1)?.done;
        if (!r.ok) {
          handlerFailed = r.error;
          break;
        }
      }
      let result;
      if (!handlerFailed) result = checker.done();
      const reported = !handlerFailed && S.steps.every((s) => s.ok);
      const wanted = steps.slice(0, executed).every((s) => s.good);
      const w = () => ({ how, rethrow: S.rethrow, steps: steps.slice(0, executed).map((s) => ({ name: s.name, good: s.good, why: s.why, url: s.url, r: s.r })), recorded: S.steps.map((s) => ({ name: s.name, ok: s.ok, error: s.error?.message })), handlerFailed: handlerFailed?.message });
      ctx.observe("runs");
      ctx.observe(wanted ? "runs-passing" : "runs-failing");
      ctx.case(["url", steps.map((s) => [s.name, s.url, s.why, s.r])], true, steps.map((s) => [s.name, s.why]));
      if (!reported && wanted) ctx.violation("false-failure:" + steps.find((s, j) => !S.steps[j]?.ok)?.name, "a run failed although every response was as expected", w());
      if (reported && !wanted) ctx.violation("false-success:" + steps.find((s) => !s.good).why, "a run passed although a response was not as expected", w());
      ctx.observe("assertions");
      steps.slice(0, executed).forEach((s, j) => {
        const st = S.steps[j];
        if (!ctx.expect(!!st && st.kind === "http", "step-missing", "a check was not executed as a step", w)) return;
        ctx.expect(st.done, "step-unfinished", "a check returned before its step was over", w);
        ctx.expect(!!st.ok === s.good, "step-verdict:" + s.why, "the verdict of a step is not that of its response", w);
        const n = st.name;
        ctx.expect(/^[a-zA-Z0-9\-_. ]+$/.test(n), "step-name", "the name of a step has forbidden characters", () => n);
        ctx.expect(n.includes(String(s.expectStatus)), "step-name-status", "the name of a step does not tell the expected status", () => [n, s.expectStatus]);
        ctx.expect(!(s.secret && n.includes(s.secret)) && !(key && n.includes(key)), "step-name-secret", "a secret is written into the name of a step", () => ({ n, secret: s.secret, key }));
        const o = s.options;
        if (!ctx.expect(!!o, "no-request", "a step sent no request", w)) return;
        ctx.observe("requests");
        ctx.expect(o.hostname === host && o.path === s.url && o.method === "GET" && o.protocol === "https:", "request", "the request does not go where the check says", () => ({ host, url: s.url, o: show(o) }));
        const h = Object.fromEntries(Object.entries(o.headers ?? {}).map(([a, b]) => [a.toLowerCase(), b]));
        ctx.expect(h["digitraffic-user"] === "internal-digitraffic-canary", "request-user", "the request does not identify the canary", () => h);
        if (s.name === "expect403WithoutApiKey") ctx.expect(!("x-api-key" in h), "request-key-sent", "the check of access without a key sends the key", () => h);
        else ctx.expect(h["x-api-key"] === key, "request-key", "the request does not carry the key of the API", () => ({ h, key }));
      });
      if (reported) ctx.expect(typeof result === "string" && /success/i.test(result), "done", "a passed run does not say so", () => result);
    }
  } finally {
    await aws.stop();
  }
}

/** one check of a canary together with the response it gets and whether that is as expected */
function step(rng) {
  const s = { why: "ok", good: true, r: { status: 200, message: "OK", headers: { "content-type": JSON_TYPE, "access-control-allow-origin": "*" }, body: body(rng, "json"), gzip: rng.bool(0.5) } };
  s.url = "/api/" + rng.word() + rng.pick(["", "/v1/x", "?a=1&b=å", "/" + rng.word() + "?lastUpdated=2020-01-01T00:00:00Z", "/a%20b"]);
  if (rng.bool(0.25)) {
    s.secret = "Secr3t" + rng.word(6, 10);
    s.url += (s.url.includes("?") ? "&" : "?") + "auth=" + s.secret + rng.pick(["", "&x=1"]);
  }
  const bad = rng.bool(0.22);
  const fail = (why) => { s.good = false; s.why = why; };
  s.name = rng.pick(["expect200", "expect200", "expect200", "expect200", "expectStatus", "expect404", "expect400", "expect403WithoutApiKey"]);
  s.expectStatus = 200;
  if (bad && rng.bool(0.08)) {
    s.r.network = true;
    fail("network");
  }
  const wrongStatus = (c) => { s.r.status = rng.pick([200, 204, 301, 304, 400, 401, 403, 404, 429, 500, 502, 503].filter((x) => x !== c)); s.r.message = rng.pick(["OK", "Bad", undefined, ""]); };
  if (s.name === "expect404" || s.name === "expect400") {
    const c = (s.expectStatus = s.name === "expect404" ? 404 : 400);
    Object.assign(s.r, { status: c, body: rng.text(20), headers: { "content-type": "text/plain" } });
    if (bad && s.good) {
      if (rng.bool()) { wrongStatus(c); fail("status"); }
      else { s.r.headers["content-type"] = rng.pick([JSON_TYPE, undefined, "text/html", "text/plain2"]); fail("content-type"); }
    }
    s.call = (k) => k[s.name](s.url);
    return s;
  }
  if (s.name === "expect403WithoutApiKey") {
    s.expectStatus = 403;
    const mt = rng.maybe(() => rng.pick([MediaType.TEXT_PLAIN, MediaType.APPLICATION_XML, JSON_TYPE]), 0.4);
    Object.assign(s.r, { status: 403, headers: { "content-type": mt ?? JSON_TYPE } });
    if (bad && s.good) {
      if (rng.bool()) { wrongStatus(403); fail("status"); }
      else { s.r.headers["content-type"] = rng.pick([undefined, "text/html", "image/jpeg"]); fail("content-type"); }
    }
    s.call = (k) => (mt ? k.expect403WithoutApiKey(s.url, mt) : k.expect403WithoutApiKey(s.url));
    return s;
  }
  if (s.name === "expectStatus") {
    s.expectStatus = rng.pick([200, 201, 204, 304, 401, 403, 404, 410, 500]);
    s.r.status = s.expectStatus;
    if (bad && s.good) { wrongStatus(s.expectStatus); fail("status"); }
  } else if (bad && s.good && rng.bool(0.4)) {
    s.r.status = rng.pick([201, 204, 301, 302, 304, 400, 403, 404, 429, 500, 503]);
    fail("status");
  }
  // checks of the content
  const cbs = [];
  const wantType = rng.pick([JSON_TYPE, GEO, MediaType.TEXT_CSV, MediaType.IMAGE_JPEG]);
  const kinds = rng.subset(["response", "content-type", "content-json", "content-text", "geojson", "header", "header-missing", "async"], 0.3);
  if (s.name === "expectStatus" && !(s.expectStatus >= 200 && s.expectStatus < 300)) for (const k of ["response", "content-type", "geojson"]) if (kinds.includes(k)) kinds.splice(kinds.indexOf(k), 1);
  const type = kinds.includes("geojson") ? GEO : wantType;
  s.r.headers["content-type"] = type;
  if (type === GEO) s.r.body = body(rng, "geojson");
  if (type === MediaType.TEXT_CSV || type === MediaType.IMAGE_JPEG) s.r.body = kinds.includes("content-json") ? body(rng, "json") : rng.text(30);
  const faults = [];
  if (kinds.includes("response") || kinds.includes("content-type") || kinds.includes("geojson")) faults.push("cors", "type");
  if (kinds.includes("geojson")) faults.push("geojson", "badjson");
  if (kinds.includes("content-json")) faults.push("badjson", "fn");
  if (kinds.includes("content-text") || kinds.includes("response") || kinds.includes("async")) faults.push("fn");
  if (kinds.includes("header")) faults.push("header");
  if (kinds.includes("header-missing")) faults.push("header-missing");
  if (kinds.includes("header")) s.r.headers["x-extra"] = "1";
  let fnThrows = false;
  if (bad && s.good && faults.length) {
    const f = rng.pick(faults);
    if (f === "cors") delete s.r.headers["access-control-allow-origin"];
    if (f === "type") s.r.headers["content-type"] = rng.pick([undefined, "text/html", type === GEO ? JSON_TYPE : GEO, type + "x"]);
    if (f === "geojson") s.r.body = body(rng, "bad-geojson");
    if (f === "badjson") s.r.body = body(rng, "bad-json");
    if (f === "fn") fnThrows = true;
    if (f === "header") delete s.r.headers["x-extra"];
    if (f === "header-missing") s.r.headers["x-gone"] = "yes";
    fail(f);
  }
  let thrower = fnThrows ? rng.pick(kinds.filter((k) => ["content-json", "content-text", "response", "async"].includes(k))) : undefined;
  const expectBody = s.r.body;
  const fn = (kind) => (a, b) => {
    const got = kind === "content-json" || kind === "json" ? b : a;
    if (got !== expectBody) throw new Disagree("body was not decoded: " + show(got) + " vs " + show(expectBody));
    if (kind === "content-json" || kind === "json") if (JSON.stringify(a) !== JSON.stringify(JSON.parse(expectBody))) throw new Disagree("json differs");
    if (thrower === kind || (thrower === "response" && kind === "json")) throw new Error("content check failed");
  };
  for (const k of kinds) {
    if (k === "response") {
      const rc = type === JSON_TYPE && rng.bool() ? U.ResponseChecker.forJson() : type === GEO && rng.bool() ? U.ResponseChecker.forGeojson() : type === MediaType.TEXT_CSV && rng.bool() ? U.ResponseChecker.forCSV() : type === MediaType.IMAGE_JPEG && rng.bool() ? U.ResponseChecker.forJpeg() : new U.ResponseChecker(type);
      if (thrower === "response") cbs.push(rc.responseChecker(fn("response")));
      else if ((type === JSON_TYPE || type === GEO) && rng.bool() && !["badjson"].includes(s.why)) cbs.push(rc.checkJson(fn("json")));
      else cbs.push(rng.bool() ? rc.check() : rc.responseChecker(fn("response")));
    }
    if (k === "content-type") cbs.push(U.ContentTypeChecker.checkContentType(type));
    if (k === "content-json") cbs.push(U.ContentChecker.checkJson(fn(k)));
    if (k === "content-text") cbs.push(U.ContentChecker.checkResponse(fn(k)));
    if (k === "geojson") cbs.push(rng.bool() ? U.GeoJsonChecker.validFeatureCollection() : U.GeoJsonChecker.validFeatureCollection(() => {}));
    if (k === "header") cbs.push(U.HeaderChecker.checkHeaderExists("x-extra"));
    if (k === "header-missing") cbs.push(U.HeaderChecker.checkHeaderMissing("x-gone"));
    if (k === "async") cbs.push(async () => { await new Promise((r) => setImmediate(r)); if (thrower === "async") throw new Error("content check failed"); });
  }
  rng.shuffle(cbs);
  if (s.name === "expect200") s.call = (k) => k.expect200(s.url, ...cbs);
  else s.call = (k) => k.expectStatus(s.expectStatus, s.url, cbs[0] ?? (async () => {}));
  if (s.name === "expectStatus" && s.why !== "status" && s.why !== "network" && s.why !== "ok") {
    // only the first check runs: nothing to judge unless it is the one that fails
    if (cbs.length > 1) { s.call = (k) => k.expectStatus(s.expectStatus, s.url, async (r) => { await Promise.all(cbs.map((c) => c(r))); }); }
  }
  return s;
}

async function databases(ctx, rng) {
  const aws = await new FakeAws().start();
  const ro = await new FakePg("ro").start();
  const rw = await new FakePg("rw").start();
  let plan = new Map();
  const ran = [];
  for (const s of [ro, rw]) s.onQuery = (ses, sql) => {
    if (/discard/i.test(sql)) return { command: "DISCARD ALL" };
    ran.push([s.name, sql]);
    const p = plan.get(sql);
    if (!p) return { rows: [], fields: [] };
    if (p.error) return { error: { message: "relation does not exist", code: "42P01" } };
    if (p.none) return { rows: [], fields: [{ name: "count", type: "int8" }] };
    if (p.nocount) return { rows: [{ total: 3 }], fields: [{ name: "total", type: "int8" }] };
    return { rows: [{ count: p.count }], fields: [{ name: "count", type: "int8" }] };
  };
  let secret;
  aws.handle = async (r) => (secret && JSON.parse(r.body).SecretId === secret.id ? { body: JSON.stringify({ Name: secret.id, SecretString: JSON.stringify(secret.value) }) } : { status: 400, body: JSON.stringify({ __type: "ResourceNotFoundException" }) });
  try {
    for (let i = 0; i < ctx.n(350, 4000); i++) {
      const S = (globalThis.__synthetics = { steps: [], config: [], rethrow: true, async: false });
      plan = new Map();
      ran.length = 0;
      const proxy = rng.bool();
      const id = "sec-" + rng.word(8, 10);
      const v = { username: "u" + rng.word(), password: "p" + rng.word(), host: rw.uri, ro_host: ro.uri, proxy_host: rw.uri, proxy_ro_host: ro.uri };
      for (const k of proxy ? ["host", "ro_host"] : ["proxy_host", "proxy_ro_host"]) delete v[k];
      secret = { id, value: v };
      for (const k of ["DB_USER", "DB_PASS", "DB_URI", "DB_RO_URI"]) delete process.env[k];
      process.env.SECRET_ID = id;
      process.env.DB_APPLICATION = "canary";
      const noSecret = rng.bool(0.05);
      if (noSecret) secret = undefined;
      const c = proxy ? DatabaseCountChecker.createForProxy() : DatabaseCountChecker.createForRds();
      ctx.expect(S.config.some((x) => x.join("=") === "withFailedCanaryMetric=true"), "failed-metric", "failures of the canary are not counted");
      const checks = rng.array(rng.bool(0.05) ? 0 : rng.int(1, 5), (j) => {
        const kind = rng.pick(["expectOne", "expectZero", "expectOneOrMore"]);
        const good = rng.bool(0.85);
        const pools = { expectOne: [[1], [0, 2, 3, 10, 11, 100, 1e9]], expectZero: [[0], [1, 2, 10, 123456]], expectOneOrMore: [[1, 2, 9, 10, 11, 100, 1e9], [0]] }[kind];
        const d = { kind, good, count: rng.pick(pools[good ? 0 : 1]), sql: rng.pick(["select count(*) from t", "SELECT COUNT(*) FROM t", "select count (x) as count from t"]) + j + rng.word() + " where updated > now() - interval '1 hour'", name: "check " + rng.word() };
        if (rng.bool(0.05)) Object.assign(d, rng.pick([{ error: true }, { none: true }, { nocount: true }]), { good: false });
        return d;
      });
      for (const d of checks) plan.set(d.sql, d);
      let refusedOk = true;
      for (const d of checks) {
        const r = ctx.attemptSync(() => c[d.kind](d.name, d.sql));
        if (!ctx.expect(r.ok && r.value === c, "check-refused", "a counting check was refused or is not chainable", () => [d, String(r.error)])) refusedOk = false;
      }
      if (rng.bool(0.15)) {
        const sql = rng.pick(["select * from t", "delete from t", "select x from t where y = 1", "update t set count = 1", ""]);
        const r = ctx.attemptSync(() => c.expectOne("x", sql));
        ctx.expect(!r.ok, "not-counting", "a check that does not count rows was accepted", () => sql);
      }
      if (!refusedOk) continue;
      const r = await ctx.attempt(() => c.expect());
      await new Promise((f) => setImmediate(f));
      const hard = checks.findIndex((d) => d.error || d.none);
      const wanted = checks.length > 0 && !noSecret && checks.every((d) => d.good);
      const reported = r.ok && S.steps.every((s) => s.ok);
      const w = () => ({ proxy, noSecret, checks, steps: S.steps.map((s) => [s.name, s.ok, s.error?.message]), ran: [...ran], result: r.ok ? r.value : r.error?.message });
      ctx.observe("db-runs");
      if (!wanted) ctx.observe("db-failing");
      ctx.case(["db", proxy, noSecret, checks.map((d) => [d.kind, d.count, d.good, d.sql])], true);
      if (reported && !wanted) ctx.violation("db-false-success:" + (checks.find((d) => !d.good)?.kind ?? (noSecret ? "no-secret" : "no-checks")), "a database canary passed although a count was not as expected", w());
      if (!reported && wanted) ctx.violation("db-false-failure", "a database canary failed although every count was as expected", w());
      ctx.observe("assertions");
      if (!wanted) ctx.expect(!r.ok, "db-handler-ok", "the handler of a failed database canary succeeded", w);
      if (noSecret || !checks.length) {
        ctx.expect(ran.length === 0, "db-ran", "queries were run without credentials or checks", w);
        continue;
      }
      const expected = (hard < 0 ? checks : checks.slice(0, hard + 1)).map((d) => ["ro", d.sql]);
      ctx.equal(ran.map(([s, q]) => [s, q]), expected, "db-queries", "the queries run are not those of the checks, once each, on the read-only endpoint", w);
      if (hard < 0) ctx.equal(S.steps.map((s) => [s.name, !!s.ok]), checks.map((d) => [d.name, d.good]), "db-steps", "the steps reported are not one per check with its verdict", w);
    }
  } finally {
    await ro.stop();
    await rw.stop();
    await aws.stop();
  }
}

function deploy(ctx, rng, i) {
  const iam = cdkMod("aws-iam");
  const schedules = [[synthetics.Schedule.rate(cdk.Duration.minutes(5)), "rate(5 minutes)"], [synthetics.Schedule.rate(cdk.Duration.hours(1)), "rate(1 hour)"], [synthetics.Schedule.once(), "rate(0 minutes)"]];
  const topics = ["arn:aws:sns:eu-west-1:123456789012:alarm", "arn:aws:sns:eu-west-1:123456789012:other"];
  const cfg = { shortName: rng.pick(["Tst", "AbC"]), vpcId: rng.bool(0.9) ? "vpc-9" : undefined, lambdaDbSgId: rng.bool(0.9) ? "sg-db" : undefined, secretId: rng.bool(0.9) ? "sec-" + rng.word() : undefined };
  const wanted = [];
  const cfn = build((stack) => {
    let api;
    for (const name of rng.shuffle(["alpha", "beta-x", "gamma"]).slice(0, rng.int(1, 3))) {
      const kind = rng.pick(["url", "url", "url-direct", "db", "dbv2"]);
      const d = { name, kind, env: {} };
      const vpcAccess = rng.bool(0.4);
      const role = new DigitrafficCanaryRole(stack, name);
      d.roleName = role.roleName;
      d.managed = ["CloudWatchSyntheticsFullAccess"];
      d.actions = ["logs:CreateLogGroup", "logs:PutLogEvents", "logs:CreateLogStream", "logs:DescribeLogGroups", "logs:DescribeLogStreams", "cloudwatch:PutMetricData"];
      if (kind.startsWith("db") || vpcAccess) {
        const r = rng.bool() ? role.withDatabaseAccess() : role.withVpcAccess();
        ctx.expect(r === role, "role-chain", "the role is not chainable");
        d.managed.push("service-role/AWSLambdaVPCAccessExecutionRole");
      }
      const p = {};
      const [sch, schText] = rng.pick(schedules);
      const withSch = rng.bool();
      if (withSch) p.schedule = sch;
      if (rng.bool(0.7)) {
        p.alarm = {};
        if (rng.bool()) p.alarm.alarmName = `${name}-my-alarm`;
        if (rng.bool()) p.alarm.description = "d " + name;
        if (rng.bool()) p.alarm.evalutionPeriods = rng.int(1, 5);
        if (rng.bool()) p.alarm.threshold = rng.int(1, 100);
        if (rng.bool(0.7)) p.alarm.topicArn = rng.pick(topics);
      }
      if (rng.bool(0.3)) p.canaryEnv = { FOO: rng.word(), ...(rng.bool(0.3) ? { hostname: "override" } : {}) };
      if (rng.bool(0.3)) p.runtime = synthetics.Runtime.SYNTHETICS_NODEJS_PUPPETEER_7_0;
      d.runtime = p.runtime ? p.runtime.name : undefined;
      d.alarm = { name: p.alarm?.alarmName ?? `${name}-alarm`, periods: p.alarm?.evalutionPeriods ?? 1, threshold: p.alarm?.threshold ?? 100, topic: p.alarm?.topicArn, description: p.alarm?.description };
      let make;
      if (kind === "url") {
        if (!api) {
          api = new DigitrafficRestApi(stack, "api-" + i, "Api " + i);
          api.root.addMethod("GET");
        }
        if (api.apiKeyIds.length === 0 && rng.bool(0.8)) { api.createUsagePlan("key1", "plan1"); if (rng.bool(0.3)) api.createUsagePlan("key2", "plan2"); }
        const hasSecret = rng.bool(0.4) && cfg.secretId;
        const params = { name, ...p, ...(rng.bool(0.3) ? { handler: name + "-x.handler" } : {}), ...(rng.bool(0.3) ? { secret: "s-id" } : {}), ...(rng.bool(0.4) ? { inVpc: true } : {}), ...(rng.bool(0.2) ? { hostname: "own.example" } : {}) };
        d.handler = params.handler ?? `${name}.handler`;
        d.canary = `${name}-url`;
        d.vpc = params.inVpc ?? false;
        d.env = { hostname: params.hostname ?? { api: true }, ...(params.secret ? { secret: params.secret } : {}), ...(api.apiKeyIds.length ? { apiKeyId: api.apiKeyIds[0] } : {}) };
        d.api = api;
        d.secret = hasSecret ? cfg.secretId : undefined;
        d.actions.push("apigateway:GET");
        make = () => UrlCanary.create(stack, role, api, params, hasSecret ? stack.getSecret() : undefined);
      } else if (kind === "url-direct") {
        const params = { name, handler: name + ".main", hostname: "h." + rng.word() + ".fi", apiKeyId: rng.maybe(() => "key-" + rng.word()), ...p, ...(rng.bool() ? { inVpc: rng.bool() } : {}) };
        if (rng.bool()) { role.withApiGatewayAccess(); d.actions.push("apigateway:GET"); }
        d.handler = params.handler;
        d.canary = `${name}-url`;
        d.vpc = params.inVpc ?? false;
        d.env = { hostname: params.hostname, ...(params.apiKeyId ? { apiKeyId: params.apiKeyId } : {}) };
        make = () => new UrlCanary(stack, role, params);
      } else {
        d.vpc = true;
        d.secret = cfg.secretId;
        if (kind === "db") {
          const params = { name, ...p, ...(rng.bool(0.3) ? { handler: name + "-y.handler" } : {}) };
          d.handler = params.handler ?? `${name}.handler`;
          d.canary = `${name}-db`;
          make = () => DatabaseCanary.create(stack, role, params);
        } else {
          const cn = rng.maybe(() => "cn-" + name.slice(0, 3), 0.4);
          d.handler = `${name}-db.handler`;
          d.canary = `${cn ?? name}-db`;
          if (!p.alarm) d.alarm = { name: cn ? `${cn}-DB-Alarm` : `${cfg.shortName}-DB-Alarm`, periods: 1, threshold: 100, topic: "arn:aws:sns:eu-west-1:123456789012:alarm" };
          else if (!p.alarm.alarmName) d.alarm.name = `${cn ?? name}-alarm`;
          if (wanted.some((x) => x.alarm.name === d.alarm.name)) { p.alarm = { ...p.alarm, alarmName: name + "-unique" }; d.alarm = { name: name + "-unique", periods: p.alarm.evalutionPeriods ?? 1, threshold: p.alarm.threshold ?? 100, topic: p.alarm.topicArn, description: p.alarm.description }; }
          make = () => (cn ? DatabaseCanary.createV2(stack, role, name, p, cn) : rng.bool() || Object.keys(p).length ? DatabaseCanary.createV2(stack, role, name, p) : DatabaseCanary.createV2(stack, role, name));
        }
        d.env = { DB_APPLICATION: `Synthetics-${d.canary}`, SECRET_ID: cfg.secretId };
        if (!withSch) d.schedule = "rate(1 hour)";
      }
      if (withSch) d.schedule = schText;
      d.schedule ??= "rate(15 minutes)";
      Object.assign(d.env, p.canaryEnv);
      const r = ctx.attemptSync(make);
      if (d.secret === undefined && kind.startsWith("db")) {
        ctx.expect(!r.ok, "db-without-secret", "a database canary without a secret was accepted", () => d.name);
        // the role exists already, but no canary does
        continue;
      }
      if (!ctx.expect(r.ok, "canary-refused", "a valid canary was refused", () => ({ name, kind, p, error: r.error?.stack }))) continue;
      d.role = role;
      wanted.push(d);
    }
  }, cfg, undefined, { "aws:cdk:disable-asset-staging": false });
  const roles = (d) => cfn.stack.resolve(d.role.roleArn)["Fn::GetAtt"][0];
  ctx.expect(cfn.of("AWS::Synthetics::Canary").length === wanted.length, "canary-count", "the number of canaries does not match", () => wanted.map((d) => d.canary));
  ctx.expect(cfn.of("AWS::CloudWatch::Alarm").length === wanted.length, "alarm-count", "not every canary has exactly one alarm");
  for (const d of wanted) {
    const c = cfn.find("AWS::Synthetics::Canary", (p) => p.Name === d.canary);
    const w = () => ({ d: { ...d, role: undefined, api: undefined }, canary: c?.[1].Properties, alarms: cfn.props("AWS::CloudWatch::Alarm") });
    if (!ctx.expect(!!c, "canary-missing", "a canary is missing or named otherwise", w)) continue;
    const p = c[1].Properties;
    ctx.observe("canaries");
    ctx.case([d.kind, d.canary, d.handler, d.env, d.alarm, d.schedule, d.vpc, cfg], true, [d.kind, d.canary, d.schedule]);
    ctx.expect(p.Code.Handler === d.handler, "handler", "the canary runs another handler", w);
    ctx.expect(minutes(p.Schedule.Expression) === minutes(d.schedule), "schedule", "the canary runs on another schedule", w);
    ctx.expect(p.StartCanaryAfterCreation === true, "started", "the canary is not started", w);
    if (d.runtime) ctx.expect(p.RuntimeVersion === d.runtime, "runtime", "the canary has another runtime", w);
    ctx.expect(target(p.ExecutionRoleArn) === roles(d), "role", "the canary does not run with its role", w);
    const env = p.RunConfig?.EnvironmentVariables ?? {};
    const want = { ...d.env };
    for (const k of Object.keys(want)) if (want[k]?.api) want[k] = text(cfn.stack.resolve(d.api.hostname()));
    for (const k of Object.keys(want)) if (typeof want[k] === "string") want[k] = text(cfn.stack.resolve(want[k]));
    ctx.equal(Object.fromEntries(Object.entries(env).map(([k, v]) => [k, text(v)])), want, "environment", "the environment of the canary is not the one asked for", w);
    // network
    if (d.vpc) {
      ctx.expect(text(p.VPCConfig?.VpcId) === String(cfg.vpcId), "vpc", "the canary does not run in the network", w);
      ctx.equal((p.VPCConfig?.SubnetIds ?? []).map(text), cfg.vpcId ? ["subnet-a", "subnet-b"] : [], "subnets", "the canary does not run in the private subnets", w);
      ctx.equal((p.VPCConfig?.SecurityGroupIds ?? []).map(text), cfg.lambdaDbSgId && cfg.vpcId ? ["sg-db"] : cfg.lambdaDbSgId ? ["sg-db"] : [], "groups", "the canary does not have the database security group", w);
    } else ctx.expect(p.VPCConfig === undefined, "vpc-unasked", "the canary runs in the network although nobody asked", w);
    // alarm
    const a = cfn.find("AWS::CloudWatch::Alarm", (x) => x.AlarmName === d.alarm.name)?.[1].Properties;
    if (ctx.expect(!!a, "alarm-missing", "the canary has no alarm of the name asked for", w)) {
      ctx.expect(a.Namespace === "CloudWatchSynthetics" && a.MetricName === "SuccessPercent" && (a.Dimensions ?? []).some((x) => x.Name === "CanaryName" && (x.Value === d.canary || target(x.Value) === c[0])), "alarm-metric", "the alarm does not watch the success of this canary", () => a);
      const fires = (v) => ({ LessThanThreshold: v < a.Threshold, LessThanOrEqualToThreshold: v <= a.Threshold, GreaterThanThreshold: v > a.Threshold, GreaterThanOrEqualToThreshold: v >= a.Threshold })[a.ComparisonOperator];
      for (const v of [0, 1, 50, 99.9, 100, d.alarm.threshold, d.alarm.threshold - 0.5, d.alarm.threshold + 0.5]) if (v >= 0 && v <= 100) ctx.expect(fires(v) === v < d.alarm.threshold, "alarm-level", "the alarm does not fire exactly below the level asked for", () => [v, d.alarm, a]);
      ctx.expect(a.EvaluationPeriods === d.alarm.periods, "alarm-periods", "the alarm waits for another number of periods", () => [d.alarm, a]);
      ctx.expect(a.ActionsEnabled !== false, "alarm-actions", "the alarm's actions are disabled", () => a);
      if (d.alarm.description) ctx.expect(a.AlarmDescription === d.alarm.description, "alarm-description", "the alarm's description is lost", () => a);
      ctx.equal((a.AlarmActions ?? []).map(text), d.alarm.topic ? [d.alarm.topic] : [], "alarm-topic", "the alarm notifies another topic", () => [d.alarm, a]);
    }
    // permissions of the role
    const roleId = roles(d);
    const role = cfn.template.Resources[roleId].Properties;
    ctx.equal((role.ManagedPolicyArns ?? []).map(text).map((x) => x.split(":policy/")[1]).sort(), [...d.managed].sort(), "managed-policies", "the role has other managed policies", () => role.ManagedPolicyArns);
    ctx.expect(JSON.stringify(role.AssumeRolePolicyDocument.Statement.map((s) => s.Principal)) === '[{"Service":"lambda.amazonaws.com"}]', "assume", "the role can be assumed by others", () => role.AssumeRolePolicyDocument);
    const stm = cfn.props("AWS::IAM::Policy").filter((x) => x.Roles.some((r) => target(r) === roleId)).flatMap((x) => x.PolicyDocument.Statement);
    const allows = (action, pred) => stm.some((s) => s.Effect === "Allow" && [].concat(s.Action).some((a2) => iamMatch(a2, action)) && pred([].concat(s.Resource), s));
    for (const act of d.actions) ctx.expect(allows(act, () => true), "permission:" + act, "the role lacks a permission the canary needs", () => stm);
    ctx.expect(!allows("cloudwatch:PutMetricData", (r, s) => s.Condition?.StringEquals?.["cloudwatch:namespace"] !== "CloudWatchSynthetics"), "metric-namespace", "the canary may write any metric", () => stm);
    ctx.expect(allows("apigateway:GET", (r) => r.every((x) => iamMatch(text(x), "arn:aws:apigateway:eu-west-1::/apikeys/abc"))) === d.actions.includes("apigateway:GET"), "api-keys", "the role may read API keys, or may not, against what was asked", () => stm);
    ctx.expect(!allows("apigateway:GET", (r) => r.some((x) => iamMatch(text(x), "arn:aws:apigateway:eu-west-1::/restapis/x"))), "api-wide", "the role may read more than API keys", () => stm);
    const bucket = target(p.ArtifactS3Location);
    ctx.expect(allows("s3:PutObject", (r) => r.some((x) => target(x) === bucket)), "artifacts", "the canary may not write its results", () => stm);
    ctx.expect(stm.filter((s) => [].concat(s.Action).some((x) => x.startsWith("s3:"))).every((s) => [].concat(s.Resource).every((x) => target(x) === bucket)), "bucket-wide", "the canary may use other buckets", () => stm);
    const sec = stm.filter((s) => [].concat(s.Action).some((x) => x.startsWith("secretsmanager:")));
    ctx.expect(d.secret ? sec.some((s) => [].concat(s.Action).includes("secretsmanager:GetSecretValue")) : sec.length === 0, "secret", "the canary may read a secret, or may not, against what was asked", () => [d.secret, sec]);
    for (const s of sec) ctx.expect([].concat(s.Resource).every((x) => text(x).includes(`:secret:${d.secret}-`)), "secret-which", "the canary may read another secret", () => [d.secret, s]);
    for (const s of stm) for (const x of [].concat(s.Action)) ctx.expect(d.actions.includes(x) || /^(s3:(Put|Delete|Abort)|secretsmanager:(Get|Describe)|s3:Get|s3:List)/.test(x), "permission-unasked", "the role has a permission nobody asked for", () => [x, s]);
    const b = cfn.template.Resources[bucket]?.Properties;
    if (b) ctx.expect(!b.PublicAccessBlockConfiguration || Object.values(b.PublicAccessBlockConfiguration).every(Boolean), "artifacts-public", "the results of the canary are public", () => b);
  }
}

const minutes = (e) => { const m = /^rate\((\d+) (minute|hour|day)s?\)$/.exec(e); return m ? Number(m[1]) * { minute: 1, hour: 60, day: 1440 }[m[2]] : e; };

async function slack(ctx, rng) {
  let mode;
  const got = [];
  const server = http.createServer((req, res) => {
    const ch = [];
    req.on("data", (c) => ch.push(c));
    req.on("end", () => {
      got.push({ method: req.method, url: req.url, type: req.headers["content-type"], body: Buffer.concat(ch).toString() });
      if (mode === "destroy") return res.destroy();
      res.writeHead(typeof mode === "number" ? mode : 200, { "content-type": "text/plain" });
      res.end("ok");
    });
  });
  await new Promise((r) => server.listen(0, "127.0.0.1", r));
  try {
    const port = server.address().port;
    for (let i = 0; i < ctx.n(120, 1000); i++) {
      mode = rng.pick(["ok", "ok", "ok", 400, 403, 404, "destroy"]);
      got.length = 0;
      const msg = rng.text(60);
      const path = "/services/" + rng.word();
      const a = rng.bool(0.9);
      const r = await ctx.attempt(() => new SlackApi(a ? `http://127.0.0.1:${port}${path}` : "not-a-url").notify(msg));
      ctx.observe("notifications");
      ctx.case(["slack", mode, a, msg], true);
      ctx.expect(r.ok, "slack-throws", "a failed notification failed its caller", () => ({ mode, a, error: String(r.error) }));
      if (!a) continue;
      ctx.expect(got.length === 1, "slack-count", "a notification was not sent exactly once", () => ({ mode, n: got.length }));
      const g = got[0];
      if (g) ctx.expect(g.method === "POST" && g.url === path && /^application\/json/.test(g.type ?? "") && g.body === JSON.stringify({ text: msg }), "slack-body", "the notification sent is not the text given", () => ({ g, msg }));
    }
  } finally {
    server.closeAllConnections();
    await new Promise((r) => server.close(r));
  }
}

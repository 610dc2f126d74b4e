// Key figures: each month's use of the services is counted once and shown as counted.
import vm from "node:vm";
import { template } from "./P24.mjs";
import { stub } from "../harness/hooks.mjs";
import { readQueues, Queues } from "../harness/queues.mjs";
import { target } from "../harness/cfn.mjs";
import { World } from "../harness/world.mjs";
import { MySql1 } from "../harness/mysql1.mjs";
import { search } from "../harness/opensearch.mjs";

for (const m of ["@aws-sdk/client-sts", "@aws-crypto/sha256-browser", "@smithy/node-http-handler", "@smithy/protocol-http", "@smithy/signature-v4"]) stub(m, "opensearch-client.mjs");

const APP = "other/os-key-figures";
const ACCOUNTS = { rail: "acc-rail-prd", road: "acc-road-prd", marine: "acc-marine-prd", afir: "acc-afir-prd" };
const HOSTS = { "rata.digitraffic.fi": "rail", "tie.digitraffic.fi": "road", "meri.digitraffic.fi": "marine", "afir.digitraffic.fi": "afir" };
const CFG = {
  openSearchVPCEndpoint: "vpce.os.test", openSearchHost: "logs.os.test", openSearchLambdaRoleArn: "arn:aws:iam::999999999999:role/os", slackWebhook: "https://slack.test/h", mysql: { password: "pw-1", database: "db_1", host: "mysql.test", user: "user-1" }, allowedIpAddresses: ["10.0.0.0/8"], rdsSecurityGroupId: "sg-rds", marineAccountName: ACCOUNTS.marine, railAccountName: ACCOUNTS.rail, roadAccountName: ACCOUNTS.road, afirAccountName: ACCOUNTS.afir, osIndex: "log-main-*", osAfirIndex: "log-afir-*", visualizationsBucketName: "the-pages",
};
const SERVICES = Object.keys(ACCOUNTS);
const plain = (k) => k.replace(/["'\\<>]/g, "");
const METRICS = {
  "Http req": (l) => sum(l, (d) => d.n),
  "Http req 200": (l) => sum(l.filter((d) => d.httpStatusCode === 200), (d) => d.n),
  "Bytes out": (l) => sum(l, (d) => d.n * (d.bytes ?? 0)),
  "Unique IPs": (l) => new Set(l.map((d) => d.clientIp).filter(Boolean)).size,
  "Top 10 Referers": [(d) => d.httpReferrer ?? "__missing__", (d) => d.n],
  "Top 10 digitraffic-users": [(d) => d.httpDigitrafficUser ?? "__missing__", (d) => d.n],
  "Top 10 User Agents": [(d) => d.agent ?? "__missing__", (d) => d.n],
  "Top 10 IPs": [(d) => d.clientIp, (d) => d.n],
  "Top digitraffic-users by bytes": [(d) => d.httpDigitrafficUser ?? "__missing__", (d) => d.n * (d.bytes ?? 0)],
};
const sum = (l, f) => l.reduce((s, d) => s + f(d), 0);
const b64 = (s) => Buffer.from(s).toString("base64");
const segs = (p) => p.split("?")[0].split("/").filter(Boolean);
const day = (ms) => new Date(ms).toISOString().slice(0, 10);

export default {
  id: "P37",
  rule: "A case is one history of months of requests, collecting runs and pages; non-trivial when figures were stored.",
  assumptions: ["OpenSearch is a stand-in that evaluates the queries on a log in memory; a quoted phrase matches the path's words in order.", "SQL is executed by SQLite after translation.", "Requests do not contain the words of another endpoint in the middle of their paths."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ runs: 300, "figures": 9000, "figures:edge": 500, "figures:endpoint": 7000, "figures:all": 300, "run:rerun": 60, "run:failed": 18, "run:os-fault": 20, "run:db-fault": 22, "run:discovery-fault": 3, "run:left-out": 4, "os:transient": 30, "os:persistent": 15, "os:garbled": 5, "os:broken": 5, "os:split": 5000, "page:index": 25, "page:detail": 600, "page:points": 15000, "page:hostile": 400, "page:missing": 3, "duplicates": 1000, "months": 50, "grown": 6, "many": 20, "late": 2 })) ctx.require(k, n);
    const cfn = await template(APP, "os-key-figures-stack", "OsKeyFiguresStack", CFG);
    const conf = readQueues(cfn, APP);
    const schedule = readSchedule(ctx, cfn);
    const real = { fetch: globalThis.fetch, setTimeout: globalThis.setTimeout };
    const w = await new World().open();
    // waits between attempts do not last
    globalThis.setTimeout = (f, ms, ...a) => {
      if (ms > 3e5) return { unref() { return this; }, ref() { return this; }, [Symbol.toPrimitive]: () => 0 };
      return real.setTimeout(f, ms > 50 && ms !== 30000 && ms !== 10001 ? 0 : ms, ...a);
    };
    try {
      for (let i = 0; i < ctx.n(26, 320); i++) await history(ctx, w, conf, schedule, real);
    } finally {
      globalThis.fetch = real.fetch;
      globalThis.setTimeout = real.setTimeout;
      await w.close();
    }
  },
};

/** what runs when, from the template */
function readSchedule(ctx, cfn) {
  const out = [];
  for (const [, r] of cfn.of("AWS::Events::Rule")) {
    const m = /^cron\((\d+) (\d+) (\d+) \* \? \*\)$/.exec(r.Properties.ScheduleExpression ?? "");
    if (!m) throw new Error("schedule " + r.Properties.ScheduleExpression);
    for (const t of r.Properties.Targets ?? []) out.push({ fn: target(t.Arn), event: t.Input ? JSON.parse(t.Input) : {}, minute: Number(m[1]), hour: Number(m[2]), day: Number(m[3]) });
  }
  const at = (x) => (x.day * 24 + x.hour) * 60 + x.minute;
  out.sort((a, b) => at(a) - at(b));
  return out;
}

async function history(ctx, w, conf, schedule, real) {
  const rng = ctx.rng.fork();
  const q = new Queues({ ...conf, functions: Object.fromEntries(Object.entries(conf.functions).map(([k, v]) => [k, { ...v }])) }, { rng });
  q.baseEnv = Object.fromEntries(Object.entries(process.env).filter(([k]) => k.startsWith("AWS_")));
  const db = new MySql1();
  const collector = Object.values(conf.functions).find((f) => f.wanted.includes("collect-os-key-figures")).id;
  const painter = Object.values(conf.functions).find((f) => f.wanted.includes("create-visualizations")).id;

  // ---- the services and their log ----
  const indices = new Map([["log-main-1", []], ["log-main-2", []], ["log-afir-1", []]]);
  const words = ["stations", "sites", "data", "latest", "locations", "vessels", "ports", "trains", "messages", "areas"];
  const docs = Object.fromEntries(SERVICES.map((s) => [s, new Set()]));
  const grow = (s, k) => {
    for (let i = 0; i < k; i++) docs[s].add(`/api/${s}-${rng.pick(["one", "two", "tre"])}/v${rng.int(1, 2)}/${rng.pick(words)}${rng.bool(0.4) ? "/" + rng.pick(["{id}", "{id}/" + rng.pick(words), rng.pick(words)]) : ""}`);
  };
  for (const s of SERVICES) grow(s, rng.int(1, 5));
  const CUSTOM = { rail: ["/api/v2/graphql/", "/infra-api/", "/jeti-api/", "/history/", "/vuosisuunnitelmat/", "/schedules/", "/mqtt/"], road: ["/*.JPG/", "/mqtt/"], marine: ["/mqtt/"], afir: ["/mqtt/"] };
  const endpoints = (s) => [...new Set([...docs[s]].map((p) => p.split("{")[0]).map((p) => (p.endsWith("/") ? p : p + "/")).concat(CUSTOM[s]))];
  const matches = (e, path) => (e === "/*.JPG/" ? /\.jpg$/i.test(path) : segs(e).every((x, i) => segs(path)[i]?.toLowerCase() === x.toLowerCase()));
  const people = ["App/1.0", "Wget/1.2 (x)", "Mozilla/5.0 (Linux; ä ö)", "constructor", "toString", "valueOf", "</script><script>alert(1)</script>", "<!--<script>", "it's \"quoted\"", "back\\slash", "${x}", "a,b", "`tick`", "Käyttäjä €", ...rng.array(14, (i) => `Agent/${i}.0`)];
  const ips = rng.array(24, (i) => `10.0.${i % 5}.${i}`);
  const write = (from, to) => {
    for (const s of SERVICES) {
      const eps = endpoints(s);
      for (let i = 0; i < rng.int(10, 45); i++) {
        const e = rng.pick(eps);
        const at = rng.bool(0.12) ? from : rng.bool(0.1) ? to - 1 : rng.int(from, to - 1);
        if (at === from) ctx.observe("figures:edge");
        const d = {
          "@timestamp": new Date(at).toISOString(), accountName: ACCOUNTS[s], n: rng.pick([1, 1, 2, 7, 1000, 70000, 123456]),
          request: rng.bool(0.1) ? "/robots.txt" : e === "/*.JPG/" ? `/C${rng.int(100, 999)}.${rng.pick(["jpg", "JPG"])}` : e.replace(/\/$/, "") + rng.pick(["", "/", "/123", "/abc/xyz", "?lang=fi"]),
          httpStatusCode: rng.pick([200, 200, 200, 304, 404, 500]), httpHost: rng.pick(["x.digitraffic.fi", "y.digitraffic.fi"]),
          bytes: rng.bool(0.9) ? rng.int(0, 5000) : undefined, clientIp: rng.bool(0.95) ? rng.pick(ips) : undefined,
          httpReferrer: rng.bool(0.6) ? "https://ref.test/" + rng.pick(people) : undefined, httpDigitrafficUser: rng.bool(0.7) ? rng.pick(people) : undefined, agent: rng.bool(0.9) ? rng.pick(people) : undefined,
        };
        const out = rng.int(0, 14);
        if (out === 0) d.skip_statistics = true;
        if (out === 1) d.httpHost = "road.integration.digitraffic.fi";
        if (out === 2) d.log_line = "something else";
        indices.get(s === "afir" ? "log-afir-1" : rng.pick(["log-main-1", "log-main-2"])).push(d);
      }
    }
    // very many clients
    if (rng.bool(0.4)) {
      const s = rng.pick(SERVICES);
      const e = rng.pick([...docs[s]]).split("{")[0];
      for (let i = 0; i < 125; i++) indices.get(s === "afir" ? "log-afir-1" : "log-main-1").push({ "@timestamp": new Date(rng.int(from, to - 1)).toISOString(), accountName: ACCOUNTS[s], n: rng.int(1, 400), request: e, httpStatusCode: 200, httpHost: "x.digitraffic.fi", bytes: rng.int(0, 9000), clientIp: `10.9.9.${i}`, httpDigitrafficUser: `User ${i}`, agent: "x" });
      ctx.observe("many");
    }
  };
  const counted = (filter, from, to) => {
    const m = /^@transport_type:([^ ]+)(?: AND @fields\.request_uri:"(.*)")?$/.exec(filter);
    if (!m) return undefined;
    const l = [...indices.values()].flat().filter((d) => (m[1] === "*" || d.accountName === ACCOUNTS[m[1]]) && Date.parse(d["@timestamp"]) >= from && Date.parse(d["@timestamp"]) < to && !d.skip_statistics && !d.log_line && !d.httpHost.endsWith(".integration.digitraffic.fi"));
    return m[2] === undefined ? l : l.filter((d) => matches(m[2], d.request));
  };
  /** is a stored value what was counted */
  const right = (filter, name, value, from, to) => {
    const l = counted(filter, from, to);
    const f = METRICS[name];
    if (!l || !f) return `unknown ${filter} ${name}`;
    const v = JSON.parse(value);
    if (typeof f === "function") return v === f(l) ? undefined : `${v} instead of ${f(l)}`;
    const all = new Map();
    for (const d of l) if (f[0](d) !== undefined) all.set(plain(f[0](d)), (all.get(plain(f[0](d))) ?? 0) + f[1](d));
    const e = Object.entries(v).map(([k, x]) => [plain(k), x]);
    for (const [k, x] of e) if (all.get(k) !== x) return `${k}: ${x} instead of ${all.get(k)}`;
    if (e.length < Math.min(10, all.size)) return `${e.length} of ${all.size}`;
    const shown = new Set(e.map(([k]) => k));
    const least = Math.min(...e.map(([, x]) => x));
    for (const [k, x] of all) if (!shown.has(k) && x > least) return `${k} with ${x} is left out`;
    return undefined;
  };

  // ---- the surroundings ----
  let osFault = () => undefined; // (request) => kind
  let specFault = () => undefined;
  let hits = { os: 0, db: 0, spec: 0, sts: 0 };
  let requests = [];
  globalThis.fetch = async (input) => {
    const u = new URL(input instanceof Request ? input.url : input);
    const s = HOSTS[u.host];
    if (!s || !/openapi\.json$/.test(u.pathname)) return new Response("{}", { status: 404 });
    const f = specFault(s);
    if (f) {
      hits.spec++;
      if (f === "status") return new Response("{}", { status: rng.pick([503, 500, 404]) });
      if (f === "text") return new Response("<html>", { status: 200 });
      if (f === "shape") return new Response(JSON.stringify({ paths: 3 }), { status: 200 });
      throw new TypeError("fetch failed");
    }
    return new Response(JSON.stringify({ openapi: "3.0.1", info: { title: "t", version: "1" }, paths: Object.fromEntries(rng.shuffle([...docs[s]]).map((p) => [p, { get: { tags: ["x"] } }])) }), { status: 200, headers: { "content-type": "application/json" } });
  };
  let roleFails = false;
  const { Readable } = await import("node:stream");
  globalThis.__os = {
    async assumeRole(i) {
      if (roleFails) {
        hits.sts++;
        throw new Error("Throttling");
      }
      ctx.expect(i.RoleArn === CFG.openSearchLambdaRoleArn, "os:role", "another role is assumed", { role: i.RoleArn });
      return { Credentials: { AccessKeyId: "AK-1", SecretAccessKey: "SK-1", SessionToken: "ST-1" } };
    },
    async handle(r) {
      const host = Object.entries(r.headers).find(([k]) => k.toLowerCase() === "host")?.[1];
      const auth = Object.entries(r.headers).find(([k]) => k.toLowerCase() === "authorization")?.[1];
      ctx.expect(r.hostname === CFG.openSearchVPCEndpoint && host === CFG.openSearchHost && auth === "AK-1/SK-1/ST-1/eu-west-1/es" && r.signed === r.body, "os:asked", "the log is asked at another place or without the right to it", { hostname: r.hostname, host, auth });
      await new Promise((x) => setImmediate(x));
      const kind = osFault(r);
      if (kind) hits.os++;
      if (kind === "connection") throw Object.assign(new Error("socket hang up"), { code: "ECONNRESET" });
      const answer = (status, b, reason) => ({ response: { statusCode: status, reason, headers: {}, body: b } });
      if (typeof kind === "number") return answer(kind, Readable.from([Buffer.from("{}")]), "no");
      const [, index, method] = /^\/([^/]+)\/([^/?]+)/.exec(decodeURIComponent(r.path)) ?? [];
      requests.push({ index, method, body: r.body });
      const a = search(indices, index, method, JSON.parse(r.body));
      if (a.unsupported) throw new Error("the stand-in does not know " + a.unsupported);
      let bytes = Buffer.from(JSON.stringify(a.body));
      if (kind === "garbled") bytes = Buffer.from(rng.pick(["<html>gateway</html>", "", "{\"count\":"]));
      const k = rng.int(1, 3);
      const chunks = Array.from({ length: k }, (_, i) => bytes.subarray(Math.floor((i * bytes.length) / k), Math.floor(((i + 1) * bytes.length) / k))).filter((c) => c.length);
      if (k > 1) ctx.observe("os:split");
      if (kind === "broken") {
        return answer(200, Readable.from((async function* () {
          yield bytes.subarray(0, Math.floor(bytes.length / 2));
          throw new Error("aborted");
        })()));
      }
      return answer(a.status, Readable.from(chunks.length ? chunks : [Buffer.alloc(0)]));
    },
  };
  const pages = new Map();
  w.aws = async (r) => {
    if (r.method !== "PUT") return { status: 501 };
    const [, b, ...k] = decodeURIComponent(r.path.split("?")[0]).split("/");
    let body = r.body;
    if (/aws-chunked/.test(r.headers["content-encoding"] ?? "")) body = unchunk(body);
    pages.set(`${b}/${k.join("/")}`, { text: body.toString("utf8"), type: r.headers["content-type"] });
    return { headers: { etag: '"x"' } };
  };

  const invoke = async (fn, event) => {
    hits = { os: 0, db: 0, spec: 0, sts: 0 };
    requests = [];
    const errors = [];
    const listen = (t) => { if (/"level":"ERROR"|"level":50/i.test(t)) errors.push(t.slice(0, 300)); };
    globalThis.__vlog?.listeners.add(listen);
    const before = db.open;
    let error;
    let timer;
    try {
      const h = await q.load(fn);
      const late = new Promise((_, no) => { timer = real.setTimeout(() => no(new Error("HUNG")), 20000); });
      await Promise.race([h(event, { awsRequestId: "k" }), late]);
    } catch (e) {
      error = e;
    } finally {
      clearTimeout(timer);
    }
    globalThis.__vlog?.listeners.delete(listen);
    await new Promise((x) => setImmediate(x));
    ctx.expect(error?.message !== "HUNG", "run:hung", "a run never ends", { event, hits });
    if (fn === collector) ctx.expect(db.open <= before, "run:connection", "a run leaves its connection to the database open", { event });
    if (db.unsupported.length) throw new Error("unsupported SQL " + JSON.stringify(db.unsupported[0]));
    return { error, errors, hits: { ...hits }, requests };
  };
  const rows = () => (db.tables().includes("key_figures") ? db.all("select `from`, `to`, name, filter, query, value from key_figures order by id").map((r) => ({ ...r, value: String(r.value) })) : []);

  // ---- months ----
  let y = rng.int(2022, 2025);
  let mo = rng.int(0, 11);
  const start = Date.UTC(y, mo, 1);
  write(Date.UTC(y, mo - 1, 1), start);
  const told = new Map(); // filter|name|month -> value text
  const known = new Map(); // month -> scopes
  let stored = 0;
  const months = rng.int(2, 3);
  // a month may be collected (again) after a later one was
  const turns = rng.array(months, (i) => i);
  const order = rng.bool(0.45) ? rng.shuffle(turns) : turns;
  let turn = 0;
  for (const k of order) {
    if (order.indexOf(k) > 0 && k < Math.max(...order.slice(0, turn))) ctx.observe("late");
    const [from, to] = [Date.UTC(y, mo + k, 1), Date.UTC(y, mo + k + 1, 1)];
    if (turn++ && rng.bool(0.5)) {
      grow(rng.pick(SERVICES), rng.int(1, 2));
      ctx.observe("grown");
    }
    write(from, to);
    ctx.observe("months");
    // the next month has begun when it is counted
    const next = Date.UTC(y, mo + k + 2, 1);
    const mark = [...indices].map(([name, l]) => [name, l.length]);
    write(to, next);
    const scopes = new Set(["@transport_type:*", ...SERVICES.flatMap((s) => [`@transport_type:${s}`, ...endpoints(s).map((e) => `@transport_type:${s} AND @fields.request_uri:"${e}"`)])]);
    known.set(day(from), scopes);
    const hurt = rng.bool(0.75);
    const again = [];
    const todo = schedule.filter((x) => x.fn === collector).map((x) => ({ ...x, attempt: 0 }));
    const whole = new Set(); // invocations known to be complete
    while (todo.length) {
      const job = todo.shift();
      w.now = Date.UTC(y, mo + k + 1, job.day, job.hour, job.minute, rng.int(0, 59)) + job.attempt * 3600e3;
      const bad = hurt && job.attempt < 2 && rng.bool(job.attempt ? 0.25 : 0.45) ? rng.pick(["os", "os", "os", "db", "db", "spec", "role", "schema"]) : undefined;
      const lost = new Set(); // what persistently fails
      if (bad === "os") {
        const mode = rng.pick(["transient", "transient", "persistent"]);
        const kind = rng.pick([429, 403, 500, 503, "connection", "garbled", "broken"]);
        const chance = rng.pick([0.05, 0.2]);
        const times = new Map();
        const bodies = new Map();
        osFault = (r) => {
          const key = r.path + r.body;
          if (!bodies.has(key)) bodies.set(key, rng.bool(chance) || (!bodies.size && rng.bool(0.5)));
          if (!bodies.get(key)) return undefined;
          times.set(key, (times.get(key) ?? 0) + 1);
          if (mode === "transient" && times.get(key) > 2) return undefined;
          if (mode === "persistent") lost.add(key);
          ctx.observe(`os:${mode}`);
          if (typeof kind === "string") ctx.observe(`os:${kind}`);
          return kind;
        };
      } else if (bad === "db") {
        let left = rng.int(0, 30);
        const once = rng.bool(0.7);
        db.fault = (sql) => {
          if (!/^\s*(insert|select|drop)/i.test(sql)) return false;
          if (left-- > 0) return false;
          if (once && left < -1) return false;
          hits.db++;
          return true;
        };
      } else if (bad === "schema") {
        db.fault = (sql) => {
          if (!/^\s*(show|create)/i.test(sql) || rng.bool(0.4)) return false;
          hits.db++;
          return true;
        };
      } else if (bad === "spec") {
        const kind = rng.pick(["status", "text", "shape", "connection"]);
        specFault = () => kind;
      } else if (bad === "role") roleFails = true;
      const had = rows().length;
      const r = await invoke(collector, job.event);
      osFault = () => undefined;
      specFault = () => undefined;
      db.fault = () => false;
      roleFails = false;
      ctx.observe("runs");
      if (r.hits.os) ctx.observe("run:os-fault");
      if (r.hits.db) ctx.observe("run:db-fault");
      if (r.hits.spec) ctx.observe("run:discovery-fault");
      const about = { event: job.event, attempt: job.attempt, month: day(from), bad, hits: r.hits, error: String(r.error ?? ""), errors: r.errors.slice(0, 2) };
      const disturbed = r.hits.db || r.hits.spec || r.hits.sts || lost.size;
      if (r.error) ctx.observe("run:failed");
      ctx.expect(disturbed || (!r.error && !r.errors.some((e) => /Collected|Failed to (collect|persist)|collect-os-key/.test(e))), "run:failure", "a run fails although nothing did, or only what is tried again", about);
      ctx.expect(!disturbed || r.error || r.errors.length, "run:silent", "figures that could not be collected or stored go unnoticed", about);
      // ---- what is stored ----
      const now = rows();
      const seen = new Map();
      for (const x of now) {
        const key = `${x.filter}|${x.name}|${x.from}`;
        ctx.expect(!seen.has(key), "figures:twice", "a figure of a month is stored twice", { ...about, key });
        seen.set(key, x.value);
        const old = told.get(key);
        ctx.expect(old === undefined || old === x.value, "figures:changed", "a stored figure changes", { ...about, key, old, value: x.value });
        if (old !== undefined) continue;
        ctx.observe("figures");
        ctx.observe(x.filter.includes("request_uri") ? "figures:endpoint" : x.filter.endsWith("*") ? "figures:all" : "figures:service");
        ctx.expect(x.from === day(from) && x.to === day(to), "figures:month", "a figure is stored for another month", { ...about, x: { ...x, query: "" } });
        ctx.expect(known.get(day(from)).has(x.filter), "figures:scope", "a figure is stored of something that is not published", { ...about, filter: x.filter });
        const wrong = right(x.filter, x.name, x.value, from, to);
        ctx.expect(!wrong, `figures:value:${x.name}`, "a stored figure is not what was counted", { ...about, filter: x.filter, wrong });
        ctx.expect(x.query === "" || requests.some((q) => q.body === x.query), "figures:query", "a figure is stored with another query than it was asked with", { ...about, filter: x.filter, query: x.query });
        told.set(key, x.value);
      }
      for (const key of told.keys()) ctx.expect(seen.has(key), "figures:gone", "a stored figure disappears", { ...about, key });
      if (had < now.length) stored++;
      if (!disturbed) whole.add(job.event);
      if (!disturbed && job.owed !== undefined) {
        // what was left out is what could not be collected, no more
        ctx.observe("run:made-up");
        ctx.expect(now.length - had === job.owed, "figures:others", "figures are not stored because others could not be collected", { ...about, missing: now.length - had, lost: job.owed });
      }
      else if (lost.size && !r.hits.db) {
        // only what failed is missing: all of a scope's figures but those
        ctx.observe("run:left-out");
        const groups = requests.length;
        const missing = now.length - had;
        ctx.expect(r.error || job.attempt > 0 || missing === new Set(requests.filter((q) => !lost.has(`/${q.index}/${q.method}${q.body}`)).map((q) => q.index + q.method + q.body)).size, "figures:others", "figures are not stored because others could not be collected", { ...about, missing, groups, lost: lost.size });
      }
      if ((disturbed || rng.bool(0.12)) && job.attempt < 4) {
        ctx.observe("run:rerun");
        const next = { ...job, attempt: job.attempt + 1, owed: lost.size && !job.attempt && !r.hits.db && !r.hits.spec && !r.hits.sts && !r.error ? lost.size : undefined };
        if (rng.bool()) todo.unshift(next);
        else todo.push(next);
      }
      if (!disturbed && job.attempt && db.tables().includes("duplicates")) {
        for (const x of db.all("select `from`, name, filter, value from duplicates")) {
          if (x.from !== day(from)) continue;
          ctx.observe("duplicates");
          ctx.expect(told.has(`${x.filter}|${x.name}|${x.from}`), "duplicates:only", "a figure is put aside as a duplicate of nothing", { ...about, x });
        }
      }
      again.push(job);
    }
    // ---- the month is complete ----
    const now = new Set(rows().filter((x) => x.from === day(from)).map((x) => `${x.filter}|${x.name}`));
    for (const s of scopes) for (const m of Object.keys(METRICS)) ctx.expect(now.has(`${s}|${m}`), "figures:missing", "a figure of the month is missing after all runs were made", { month: day(from), filter: s, name: m, events: [...whole].length });
    ctx.expect(now.size === scopes.size * Object.keys(METRICS).length, "figures:number", "there are other figures than those of the services and endpoints", { now: now.size, scopes: scopes.size });
    // what was written for the next month is written again
    for (const [name, n] of mark) indices.get(name).length = n;
    if (rng.bool(0.6) || turn === months) await paint(k);
  }
  db.fault = () => false;
  ctx.case(`${y}-${mo}-${months}-${stored}-${told.size}`, stored > 0);

  // ---- pages ----
  async function paint() {
    const lost = [];
    if (rng.bool(0.35)) {
      // a figure that could not be collected
      const f = rng.pick(rows().filter((x) => x.filter.includes("request_uri"))).filter;
      const name = "Http req";
      db.all("select 1");
      lost.push(...rows().filter((x) => x.filter === f && x.name === name));
      db.db.prepare("delete from key_figures where filter = ? and name = ?").run(f, name);
    }
    const job = schedule.find((x) => x.fn === painter);
    w.now += 3600e3;
    ctx.expect(job, "page:schedule", "the pages are never made", {});
    pages.clear();
    const r = await invoke(painter, {});
    ctx.expect(!r.error, "page:failure", "the pages are not made", { error: String(r.error?.stack ?? r.error), lost: lost.length });
    if (r.error) return;
    const all = rows();
    const filters = [...new Set(all.map((x) => x.filter))];
    const get = (name) => pages.get(`${CFG.visualizationsBucketName}/${name}`);
    ctx.expect(pages.size === filters.length + 1, "page:number", "there is not one page of each endpoint", { pages: pages.size, filters: filters.length });
    const short = (f) => /request_uri:"(.*)"/.exec(f)?.[1] ?? f;
    const at = (x) => Date.parse(x.from);
    const series = (l) => l.map((x) => [at(x), Number(x.value)]).sort((a, b) => a[0] - b[0]);
    // the overview
    const index = get("index.html");
    ctx.observe("page:index");
    ctx.expect(index?.type === "text/html", "page:type", "a page is not HTML", { type: index?.type });
    const charts = draw(ctx, index?.text ?? "", "index.html");
    const latest = (f) => all.filter((x) => x.filter === f && x.name === "Http req").sort((a, b) => at(b) - at(a))[0]?.value;
    const links = [...(index?.text ?? "").matchAll(/<tr><td><a href="([^"]*)">([^<]*)<\/a><\/td><td>([^<]*)<\/td><\/tr>/g)].map((m) => ({ href: m[1], label: m[2], n: m[3] }));
    const want = filters.filter((f) => !f.endsWith(":*"));
    ctx.expect(links.length === want.length, "page:links", "the overview does not list each endpoint once", { links: links.length, want: want.length });
    for (const f of want) {
      const l = links.find((x) => x.href === `${b64(f)}.html` || decodeURIComponent(x.href) === `${b64(f)}.html`);
      ctx.expect(l && l.label === short(f), "page:link", "an endpoint's page is not linked from the overview", { f, l });
      const v = latest(f);
      if (v === undefined) {
        ctx.observe("page:missing");
        ctx.expect(l && !/[1-9]/.test(l.n), "page:unknown", "requests are told that are not known", { f, l });
      } else ctx.expect(l?.n.replaceAll(",", "") === v && /^\d{1,3}(,\d{3})*$/.test(l.n), "page:requests", "the requests told of an endpoint are not those of its latest month", { f, l, v });
    }
    const same = (id, got, wanted, page) => {
      ctx.observe("page:points", wanted.reduce((s, x) => s + x[1].length, 0));
      ctx.equal((got ?? []).map((s) => [plain(s.key), s.values]).sort(order), wanted.map(([k, v]) => [plain(k), v]).sort(order), `page:chart:${id}`, "a chart shows something else than the figures", { page, id });
    };
    const order = (a, b) => (a[0] < b[0] ? -1 : a[0] > b[0] ? 1 : 0);
    for (const [id, name] of [["requests", "Http req"], ["bytesOut", "Bytes out"], ["uniqueIPs", "Unique IPs"]]) same(id, charts.get(id), filters.filter((f) => !f.includes("request_uri")).map((f) => [f, series(all.filter((x) => x.filter === f && x.name === name))]).filter(([, v]) => v.length), "index");
    for (const s of SERVICES) same(`${s}Endpoints`, charts.get(`${s}Endpoints`), filters.filter((f) => f.startsWith(`@transport_type:${s} AND`)).map((f) => [short(f), series(all.filter((x) => x.filter === f && x.name === "Http req" && Number(x.value) > 50000))]).filter(([, v]) => v.length), "index");
    // each endpoint
    for (const f of filters) {
      const p = get(`${b64(f)}.html`);
      ctx.expect(p?.type === "text/html", "page:detail", "an endpoint has no page where the overview points", { f });
      if (!p) continue;
      ctx.observe("page:detail");
      if (/script|constructor|toString/.test(all.filter((x) => x.filter === f).map((x) => x.value).join())) ctx.observe("page:hostile");
      const c = draw(ctx, p.text, f);
      for (const [id, name] of [["requests", "Http req"], ["bytesOut", "Bytes out"], ["uniqueIPs", "Unique IPs"]]) ctx.equal((c.get(id) ?? [])[0]?.values, series(all.filter((x) => x.filter === f && x.name === name)), `page:chart:${id}`, "a chart shows something else than the figures", { f, id });
      for (const [id, name] of [["top10digitrafficUsers", "Top 10 digitraffic-users"], ["top10IPs", "Top 10 IPs"], ["top10userAgents", "Top 10 User Agents"], ["top10referers", "Top 10 Referers"]]) {
        const by = new Map();
        for (const x of all.filter((x) => x.filter === f && x.name === name).sort((a, b) => at(a) - at(b))) for (const [k, v] of Object.entries(JSON.parse(x.value))) by.set(k, [...(by.get(k) ?? []), [at(x), v]]);
        same(id, c.get(id), [...by], f);
      }
    }
    // put back what was taken
    for (const x of rng.shuffle(lost)) db.db.prepare("insert into key_figures(`from`, `to`, query, value, name, filter) values(?,?,?,?,?,?)").run(x.from, x.to, x.query, x.value, x.name, x.filter);
  }
}

/** runs the script of a page as a browser finds it; charts by id */
function draw(ctx, html, page) {
  const scripts = [];
  let i = 0;
  const lower = html.toLowerCase();
  for (;;) {
    const s = lower.indexOf("<script", i);
    if (s < 0) break;
    const b = lower.indexOf(">", s) + 1;
    const e = lower.indexOf("</script", b);
    if (e < 0) break;
    scripts.push({ tag: html.slice(s, b), code: html.slice(b, e) });
    i = e + 9;
  }
  const charts = new Map();
  const any = () => new Proxy(function () {}, { get: (_, k) => (k === Symbol.toPrimitive ? () => "" : any()), apply: () => any() });
  const bag = vm.createContext({ window: {}, out: (id, d) => charts.set(id, JSON.parse(d)), any, alert: () => { charts.alerted = true; } });
  let error;
  try {
    vm.runInContext(`
      const nv = { models: { lineChart: any }, addGraph: (f) => f() };
      const d3 = new Proxy({ select: (s) => ({ datum(d) { out(/^#(\\S+)/.exec(s)[1], JSON.stringify(d)); return { call() {} }; } }) }, { get: (t, k) => t[k] ?? any() });
      const element = () => ({ prepend() {} });
      const document = { createElement: element, getElementById: element };`, bag);
    for (const s of scripts) if (!/src=/.test(s.tag)) vm.runInContext(s.code, bag);
    vm.runInContext("window.onload()", bag);
  } catch (e) {
    error = e;
  }
  ctx.expect(!error && !charts.alerted && scripts.filter((s) => !/src=/.test(s.tag)).length === 1, "page:script", "names that clients use break a page, or run in it", { page, error: String(error ?? ""), alerted: charts.alerted });
  return charts;
}
function unchunk(b) {
  const parts = [];
  for (let i = 0; i < b.length; ) {
    const e = b.indexOf("\r\n", i);
    const n = Number.parseInt(b.subarray(i, e).toString().split(";")[0], 16);
    if (!n) break;
    parts.push(b.subarray(e + 2, e + 2 + n));
    i = e + 2 + n + 2;
  }
  return Buffer.concat(parts);
}

// Gateways: what is passed on is what was asked, and what was received.
import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";
import { repo, REPO } from "../harness/hooks.mjs";
import { readQueues, Queues } from "../harness/queues.mjs";
import { Api, readRoutes } from "../harness/api.mjs";
import { inScratch, makeLambdaAsset, newApp, synth, baseConfig } from "../harness/infra.mjs";
import { target } from "../harness/cfn.mjs";
import { World } from "../harness/world.mjs";

const Ajv = createRequire("/opt/veriftools/node/node_modules/")("ajv");
const ARN = "arn:aws:cloudfront::123456789012:distribution/E1";
const NAMES = ["name", "callsign", "imo", "mmsi", "uuid", "locode", "externalID"];
const TEXTS = ["Alpha", "M/S Väylä", "A & B", "a=b", "100%", "%26imo=1", "x#y", "two words", "a+b", "?", "/../x", "日本", "\"q\"", "'", "a&imo=9999999", "", "0", "true", "urn:x:1", "\u{1F6A2}"];

export default {
  id: "P39",
  rule: "A case is one history of requests to, or runs of, a gateway and its sources; non-trivial when something was passed on.",
  assumptions: ["Sources and buckets are stand-ins on the loopback network.", "Waiting between attempts is left out.", "ajv is the installed one with stand-in formats."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ asked: 500, passed: 220, hostile: 250, denied: 70, "bad-direction": 40, "source-fault": 25, "path:direction": 40, "path:calculated": 25, reports: 60, plans: 150, "plans:stored": 150, "plans:invalid": 35, "plans:fault": 12, "plans:kept": 60, lam: 150, "lam:stored": 200, "lam:fault": 35, "lam:kept": 50 })) ctx.require(k, n);
    const real = globalThis.setTimeout;
    globalThis.setTimeout = (f, ms, ...a) => real(f, ms >= 200 && ms < 8000 ? 1 : ms, ...a);
    const w = await new World().open();
    try {
      await app(ctx, w, "marine/voyage-plan-gateway", "voyage-plan-gateway-stack", "VoyagePlanGatewayStack", { secretId: "app-secret" }, schedules, ctx.n(60, 600));
      await app(ctx, w, "marine/gofrep", "gofrep-stack", "GofrepStack", { apiKey: "key-of-gofrep-which-is-long-enough" }, reports, ctx.n(30, 200));
      await app(ctx, w, "rail/yearly-plans", "yearly-plans-stack", "YearlyPlansStack", { secretId: "app-secret", yearlyPlansBucketName: "yearly", projectPlansBucketName: "projects", cloudFrontArn: ARN, yearlyPlansBucketCorsRules: [], projectPlansBucketCorsRules: [] }, plans, ctx.n(60, 600));
      await app(ctx, w, "road/lam-history", "lam-history-stack", "LamHistoryStack", { secretId: "app-secret", bucketName: "lam", cloudfrontDistributionArn: ARN }, lam, ctx.n(60, 600));
    } finally {
      globalThis.setTimeout = real;
      await w.close();
    }
  },
};
async function app(ctx, w, dir, file, cls, cfg, history, n) {
  const cfn = await inScratch(async () => {
    makeLambdaAsset(...fs.readdirSync(path.join(REPO, dir, "src/lambda")), "lambda-get-schedules");
    fs.mkdirSync("src/website", { recursive: true });
    fs.writeFileSync("src/website/index.html", "x");
    const m = await repo(`${dir}/src/${file}.ts`);
    const a = newApp({ "aws:cdk:enable-asset-metadata": true });
    return synth(a, new m[cls](a, "S", baseConfig(cfg)));
  });
  const conf = readQueues(cfn, dir);
  // sources that are bundled into a directory of another name
  for (const f of Object.values(conf.functions)) {
    if (f.rel) continue;
    const name = path.basename(f.wanted);
    const found = fs.readdirSync(path.join(REPO, dir, "src/lambda"), { recursive: true }).find((x) => path.basename(x) === name);
    if (found) f.rel = `${dir}/src/lambda/${found}`;
  }
  for (let i = 0; i < n; i++) {
    const rng = ctx.rng.fork();
    w.reset();
    w.aws = async () => ({ status: 501 });
    w.now = Date.UTC(2024, rng.int(0, 11), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59), rng.int(0, 59), rng.int(0, 999));
    const q = new Queues({ ...conf, functions: Object.fromEntries(Object.entries(conf.functions).map(([k, v]) => [k, { ...v }])) }, { rng });
    q.baseEnv = Object.fromEntries(Object.entries(process.env).filter(([k]) => k.startsWith("AWS_")));
    const seen = await history({ ctx, rng, w, cfn, conf, q, api: new Api(readRoutes(cfn, conf), (id) => q.load(id)) });
    if (w.serveError) throw w.serveError;
    ctx.case(`${dir}-${i}-${w.now}-${seen}`, seen > 0);
  }
}

// ---- schedules of vessels ----
async function schedules({ ctx, rng, w, cfn, api }) {
  const token = rng.pick(["tok-1", "Ö&=%", "a b+c", "0"]);
  const base = rng.pick(["/schedules", "/a/b"]);
  w.secret({ "vpgw.schedulesAccessToken": token, "vpgw.schedulesUrl": w.url + base });
  const method = cfn.find("AWS::ApiGateway::Method", (p) => p.HttpMethod === "GET");
  ctx.expect(method?.[1].Properties.ApiKeyRequired === true, "schedules:key", "schedules are told without an API key", {});
  let passed = 0;
  for (let i = 0; i < rng.int(10, 24); i++) {
    const asked = new Map();
    for (const n of NAMES) if (rng.bool(0.3)) asked.set(n, rng.pick(TEXTS));
    const other = new Map();
    if (rng.bool(0.2)) other.set(rng.pick(["secret", "NAME", "id"]), "x");
    const direction = rng.bool(0.4) ? rng.pick(["east", "west", "east", "west", "EAST", "north", "../x", "east/calculated", "", "eastwest"]) : undefined;
    const calculated = rng.bool(0.4) ? rng.pick(["true", "true", "false", "", "1"]) : undefined;
    const auth = rng.bool(0.8) ? token : rng.pick([undefined, "", token.slice(0, -1), token.slice(0, 1) + (token.length < 2 ? "x" : ""), token + "x", token.slice(1), "undefined", token.toUpperCase() === token ? "zz" : token.toUpperCase()]);
    const q = [...asked, ...other, ...(direction === undefined ? [] : [["direction", direction]]), ...(calculated === undefined ? [] : [["calculated", calculated]]), ...(auth === undefined ? [] : [["auth", auth]])];
    if ([...asked.values()].some((v) => /[&=%#+ ?]/.test(v))) ctx.observe("hostile");
    const got = [];
    const fault = rng.bool(0.15) ? rng.pick([400, 404, 500, 503, "cut"]) : undefined;
    const body = rng.pick(["<x>Väylä</x>", "{\"a\":\"ö\"}", "", "[]", "a,b\r\n1,2", "x".repeat(70000)]);
    w.serve = async (r) => {
      got.push(r);
      if (fault === "cut") return { chunks: [Buffer.from("{\"part")], cut: true, headers: { "content-length": "1000" } };
      if (fault) return { status: fault, body: "secret trouble", headers: { "retry-after": "0" } };
      return { status: 200, body, headers: { "content-type": rng.pick(["application/json", "text/xml; charset=utf-8", "text/plain"]) } };
    };
    const url = "/temp/schedules" + (q.length ? "?" + rng.shuffle(q).map(([k, v]) => `${encodeURIComponent(k)}=${encodeURIComponent(v)}`).join("&") : "");
    const a = await api.call("GET", url);
    ctx.observe("asked");
    const about = { url, status: a.status, text: a.text.slice(0, 80), got: got.map((r) => r.url), fault, error: a.error && String(a.error) };
    if (auth !== token) {
      ctx.observe("denied");
      ctx.expect(!got.length && a.status === 403 && !a.text.includes(token), "schedules:denied", "somebody without the token is told schedules, or something else than that he is denied", about);
      continue;
    }
    if (direction && !["east", "west"].includes(direction)) {
      ctx.observe("bad-direction");
      ctx.expect(!got.length && a.status === 400, "schedules:direction", "an unknown direction is asked of the source", about);
      continue;
    }
    ctx.expect(got.length >= 1 && (fault || got.length === 1), "schedules:asked", "the source is not asked once", about);
    for (const r of got) {
      const u = new URL(r.url, w.url);
      const want = base + (direction ? "/" + direction : "") + (calculated === "true" ? "/calculated" : "");
      ctx.expect(r.method === "GET" && u.pathname === want, "schedules:path", "other schedules are asked for than were asked", { ...about, want });
      const sort = (l) => [...l].map(([k, v]) => `${k}=${v}`).sort();
      ctx.equal(sort(u.searchParams), sort(asked), "schedules:parameters", "the source is asked with other parameters than were given", about);
      ctx.expect(!JSON.stringify([r.url, r.headers]).includes(encodeURIComponent(token)) || token.length < 3, "schedules:token", "the token of users is passed to the source", about);
    }
    if (direction) ctx.observe("path:direction");
    if (calculated === "true") ctx.observe("path:calculated");
    if (fault) {
      ctx.observe("source-fault");
      ctx.expect(a.status >= 400 && !a.text.includes("secret trouble"), "schedules:fault", "an answer of a failing source is passed on as if it were schedules", about);
      continue;
    }
    ctx.observe("passed");
    passed++;
    ctx.expect(a.status === 200 && a.text === body, "schedules:body", "something else is told than the source answered", { ...about, body: body.slice(0, 80) });
  }
  return passed;
}

// ---- reports of ships ----
async function reports({ ctx, rng, w, cfn, api }) {
  for (const [, m] of cfn.of("AWS::ApiGateway::Method")) ctx.expect(m.Properties.HttpMethod === "OPTIONS" || m.Properties.ApiKeyRequired === true, "reports:key", "a method can be called without an API key", { m: m.Properties.HttpMethod });
  const mock = cfn.find("AWS::ApiGateway::Method", (p) => p.HttpMethod === "GET" && p.Integration?.Type === "MOCK");
  const text = mock && mock[1].Properties.Integration.IntegrationResponses?.[0]?.ResponseTemplates?.["application/json"];
  let formality;
  try { formality = JSON.parse(text); } catch {}
  ctx.expect(formality?.["0"]?.MrsName === "GOFREP" && !/[$#]/.test(text), "reports:formality", "the formality is not told", { text: String(text).slice(0, 80) });
  for (let i = 0; i < 4; i++) {
    w.now += rng.int(0, 1e9);
    const a = await api.call("POST", "/mrs/report", { body: JSON.stringify({ EPCMessageHeader: { ShipMessageId: rng.pick(TEXTS) }, EPCRequestBody: { x: rng.pick(TEXTS) } }) });
    let b;
    try { b = JSON.parse(a.text); } catch {}
    ctx.observe("reports");
    const t = b?.EPCMessageHeader?.SentTime;
    ctx.expect(a.status === 200 && /^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$/.test(t) && Date.parse(t) === Math.floor(w.now / 1000) * 1000, "reports:answer", "a report is not acknowledged with the time of the answer", { status: a.status, text: a.text.slice(0, 120), now: new Date(w.now).toISOString() });
  }
  return 1;
}

/** S3 as far as uploads go */
function bucket(w) {
  const s = { objects: new Map(), types: new Map(), fail: () => false, puts: 0 };
  w.aws = async (r) => {
    if (r.method !== "PUT" || r.target) return { status: 501 };
    s.puts++;
    if (s.fail()) return { status: 500, body: "<Error><Code>InternalError</Code></Error>" };
    const [, b, ...k] = r.path.split("/");
    let body = r.body;
    if (/aws-chunked/.test(r.headers["content-encoding"] ?? "")) body = unchunk(body);
    s.objects.set(`${b}/${k.join("/")}`, body.toString("utf8"));
    s.types.set(`${b}/${k.join("/")}`, r.headers["content-type"]);
    return { headers: { etag: '"x"' } };
  };
  return s;
}
function unchunk(b) {
  const parts = [];
  for (let i = 0; i < b.length; ) {
    const e = b.indexOf("\r\n", i);
    const n = Number.parseInt(b.subarray(i, e).toString().split(";")[0], 16);
    if (!n) break;
    parts.push(b.subarray(e + 2, e + 2 + n));
    i = e + 2 + n + 2;
  }
  return Buffer.concat(parts);
}
/** one run of the only scheduled function */
async function runs({ ctx, cfn, conf, q }) {
  const rules = cfn.of("AWS::Events::Rule").filter(([, r]) => r.Properties.State !== "DISABLED");
  const fns = rules.flatMap(([, r]) => (r.Properties.Targets ?? []).map((t) => target(t.Arn))).filter((id) => conf.functions[id]);
  ctx.expect(fns.length === 1, "runs:schedule", "the update is not run on schedule", { n: fns.length });
  let error;
  try {
    await (await q.load(fns[0]))({}, { awsRequestId: "r" });
  } catch (e) {
    error = e ?? "nothing";
  }
  return error;
}
const faults = (rng, p) => (rng.bool(p) ? rng.pick([400, 403, 404, 500, "cut", "text"]) : undefined);
const answer = (fault, body, rng) => {
  if (fault === "cut") return { chunks: [Buffer.from(body.slice(0, 5) || "{")], cut: true, headers: { "content-length": "100000" } };
  if (typeof fault === "number") return { status: fault, body: rng.pick(["{\"e\":1}", "no", ""]), headers: { "retry-after": "0" } };
  return { body: fault === "text" ? "<html>" : body };
};

// ---- plans of track work ----
let compiled;
async function validators() {
  if (compiled) return compiled;
  const { schema } = await repo("rail/yearly-plans/src/model/schema.ts");
  const { default: addFormats } = await import("../stubs/ajv-formats.mjs");
  const ajv = new Ajv({ strict: false, allErrors: true });
  addFormats(ajv);
  ajv.addFormat("partial-time", /^\d{2}:\d{2}$/);
  ajv.addSchema(JSON.parse(JSON.stringify(schema)), "s");
  const of = (n) => ajv.compile({ $ref: `s#/definitions/${n}` });
  return (compiled = { schema, "yearly-plan": [of("YearlyPlanListRedactedDto"), "YearlyPlanListRedactedDto"], "project-plan": [of("ProjectPlanListRedactedDto"), "ProjectPlanListRedactedDto"] });
}
/** a document of a schema; cuts: places where something required is */
function make(rng, schema, s, cuts, depth = 0) {
  if (s.$ref) return make(rng, schema, schema.definitions[s.$ref.split("/").pop()], cuts, depth);
  if (s.enum) return rng.pick(s.enum);
  if (s.oneOf ?? s.anyOf) {
    const l = s.oneOf ?? s.anyOf;
    const none = l.find((x) => x.type === "null");
    return none && (depth > 6 || rng.bool(0.4)) ? null : make(rng, schema, rng.pick(l.filter((x) => x !== none)), cuts, depth);
  }
  if (s.type === "object" || s.properties) {
    const o = {};
    // a source may tell more than was agreed, where that is allowed
    if (s.additionalProperties === undefined && rng.bool(0.2)) o.addedLater = rng.pick([7, "x", { a: [1] }]);
    for (const [k, p] of Object.entries(s.properties ?? {})) {
      const must = (s.required ?? []).includes(k);
      if (!must && (depth > 6 || rng.bool(0.4))) continue;
      o[k] = make(rng, schema, p, cuts, depth + 1);
      if (must) cuts.push(() => delete o[k]);
      else if (["string", "integer"].includes(p.type)) cuts.push(() => (o[k] = p.type === "string" ? 7 : "seven"));
    }
    return o;
  }
  if (s.type === "array") {
    const l = rng.array(depth > 6 ? 0 : rng.int(depth < 2 ? 1 : 0, 2), () => make(rng, schema, s.items ?? {}, cuts, depth + 1));
    return s.uniqueItems ? l.filter((x, i) => l.findIndex((y) => JSON.stringify(y) === JSON.stringify(x)) === i) : l;
  }
  if (s.format === "date") return `2024-0${rng.int(1, 9)}-1${rng.int(0, 9)}`;
  if (s.format === "date-time") return `2024-0${rng.int(1, 9)}-1${rng.int(0, 9)}T10:00:00Z`;
  if (s.format === "partial-time") return "12:30";
  if (s.type === "integer") return rng.pick([0, 1, 7, 123456]);
  if (s.type === "number") return rng.pick([0, 1.5]);
  if (s.type === "boolean") return rng.bool();
  return rng.pick(["1.2.246", "Väylä", "\"q\"", "x y", "\u2028"]) + rng.int(0, 999);
}
async function plans(t) {
  const { ctx, rng, w } = t;
  const v = await validators();
  w.secret({ url: w.url + "/supa", apiKey: "KEY-1" }, "app-secret");
  w.secrets.set("app-secret", { url: w.url + "/supa", apiKey: "KEY-1", "yp.url": w.url + "/supa", "yp.apiKey": "KEY-1" });
  const s3 = bucket(w);
  const at = { "yearly-plan": "yearly/yearly-plans.json", "project-plan": "projects/project-plans.json" };
  let stored = 0;
  for (let k = 0; k < rng.int(3, 6); k++) {
    const docs = {};
    const fault = {};
    const bad = new Set();
    const served = new Map();
    for (const kind of Object.keys(at)) {
      const cuts = [];
      docs[kind] = make(rng, v.schema, v.schema.definitions[v[kind][1]], cuts);
      if (!v[kind][0](docs[kind])) throw new Error("generator " + JSON.stringify(v[kind][0].errors).slice(0, 500));
      if (rng.bool(0.18)) {
        if (rng.bool(0.15)) docs[kind] = rng.pick([null, 7, "x", []]);
        else if (cuts.length) rng.pick(cuts)();
        if (!v[kind][0](docs[kind])) {
          bad.add(kind);
          ctx.observe("plans:invalid");
        }
      }
      fault[kind] = faults(rng, 0.08);
    }
    const s3fault = rng.bool(0.1);
    let lost = 0;
    s3.fail = () => s3fault && rng.bool(0.6) && ++lost > 0;
    w.serve = async (r) => {
      const kind = /^\/supa\/([^/]+)$/.exec(r.path)?.[1];
      ctx.expect(r.method === "GET" && docs[kind] !== undefined && r.headers["api-key"] === "KEY-1", "plans:asked", "plans are asked at another place, or without the key", { url: r.url });
      served.set(kind, true);
      return answer(fault[kind], JSON.stringify(docs[kind]), rng);
    };
    const before = new Map(s3.objects);
    const error = await runs(t);
    ctx.observe("plans");
    const about = { bad: [...bad], fault, lost, error: String(error ?? "") };
    const wrong = bad.size || Object.values(fault).some((x) => x !== undefined) || lost;
    if (Object.values(fault).some((x) => x !== undefined)) ctx.observe("plans:fault");
    ctx.expect(wrong || !error, "plans:failure", "an update of plans fails although nothing did", about);
    ctx.expect(!wrong || error instanceof Error, "plans:silent", "an update that could not store all plans succeeds, or fails without telling why", about);
    ctx.expect([...s3.objects.keys()].every((x) => Object.values(at).includes(x)), "plans:place", "plans are stored in another place", { keys: [...s3.objects.keys()] });
    for (const [kind, key] of Object.entries(at)) {
      const now = s3.objects.get(key);
      if (!error || (now !== before.get(key))) {
        ctx.observe("plans:stored");
        stored++;
        let got;
        try { got = JSON.parse(now); } catch {}
        ctx.equal(got, docs[kind], "plans:document", "other plans are stored than the source gave", { ...about, kind });
        ctx.expect(!bad.has(kind) && fault[kind] === undefined, "plans:invalid", "plans that are not as agreed replace those that are", { ...about, kind });
        ctx.expect(/^application\/json/.test(s3.types.get(key) ?? ""), "plans:type", "plans are not stored as JSON", { type: s3.types.get(key) });
      } else ctx.observe("plans:kept");
    }
  }
  return stored;
}

// ---- stations of the traffic history ----
async function lam(t) {
  const { ctx, rng, w } = t;
  const s = { snowflakeApikey: "SNOW-1", pisteUrl: w.url + "/src/p?a=1", pistejoukkoUrl: w.url + "/src/pj", historyUrl: w.url + "/none" };
  w.secrets.set("app-secret", Object.fromEntries(Object.entries(s).flatMap(([k, v]) => [[k, v], [`tms-history.${k}`, v]])));
  const s3 = bucket(w);
  const at = { "/src/p": "lam/pisteet.json", "/src/pj": "lam/pistejoukot.json" };
  let stored = 0;
  for (let k = 0; k < rng.int(3, 6); k++) {
    const docs = Object.fromEntries(Object.keys(at).map((p) => [p, rng.pick([`{"d":"${p} Väylä \u2028 ${k}"}`, `[${k}, 1e400, 12345678901234567890]`, `{"a":  ${k},"a":2}\n`, "[]", `["${"ö".repeat(40000)}${k}"]`])]));
    const fault = Object.fromEntries(Object.keys(at).map((p) => [p, rng.bool(0.12) ? rng.pick([202, 204, 400, 403, 404, 500, "cut"]) : undefined]));
    let lost = 0;
    const s3fault = rng.bool(0.1);
    s3.fail = () => s3fault && rng.bool(0.6) && ++lost > 0;
    w.serve = async (r) => {
      ctx.expect(r.method === "GET" && docs[r.path] !== undefined && r.headers["x-api-key"] === "SNOW-1" && (r.path !== "/src/p" || r.query.get("a") === "1"), "lam:asked", "stations are asked at another place, or without the key", { url: r.url });
      if (fault[r.path] === 204) return { status: 204, body: "" };
      return answer(fault[r.path], docs[r.path], rng);
    };
    const before = new Map(s3.objects);
    const error = await runs(t);
    ctx.observe("lam");
    const about = { fault, lost, error: String(error ?? "") };
    const wrong = Object.values(fault).some((x) => x !== undefined) || lost;
    if (wrong) ctx.observe("lam:fault");
    ctx.expect(wrong || !error, "lam:failure", "an update of stations fails although nothing did", about);
    ctx.expect(!wrong || error instanceof Error, "lam:silent", "an update that could not store all stations succeeds, or fails without telling why", about);
    ctx.expect([...s3.objects.keys()].every((x) => Object.values(at).includes(x)), "lam:place", "stations are stored in another place", { keys: [...s3.objects.keys()] });
    for (const [p, key] of Object.entries(at)) {
      const now = s3.objects.get(key);
      if (!error || now !== before.get(key)) {
        ctx.observe("lam:stored");
        stored++;
        ctx.expect(now === docs[p] && fault[p] === undefined, "lam:document", "other stations are stored than the source gave", { ...about, p, now: now?.slice(0, 60), want: docs[p].slice(0, 60) });
      } else ctx.observe("lam:kept");
    }
  }
  return stored;
}

// Every application as it is deployed: its template from a full synth over the output of the
// repository's own build configuration, and every function of it loaded and invoked with
// exactly the environment, the secret and the permissions the template gives.
import fs from "node:fs";
import path from "node:path";
import { REPO, repo } from "../harness/hooks.mjs";
import { APPS, appBuild, autostubs } from "../harness/apps.mjs";
import { FakePg } from "../harness/fakepg.mjs";
import { World } from "../harness/world.mjs";
import { iamMatch, target } from "../harness/cfn.mjs";
import { url as queueUrl } from "../harness/queues.mjs";

const ACCOUNT = "123456789012";
const REGION = "eu-west-1";

export default {
  id: "P26",
  rule: "A case is one invocation of a deployed function (or one API method, schedule, queue mapping or canary); non-trivial when the function's handler was loaded and ran.",
  assumptions: ["Packages that are not installed here are replaced by ones that do nothing.", "Bundling is replaced by one output file per entry point of the repository's build configuration.", "Every query finds nothing and outside services answer with an empty document."],
  ignoreUnhandled: () => true,
  async run(ctx) {
    for (const [k, n] of Object.entries({ apps: 20, functions: 60, loaded: 60, invocations: 400, "secrets-read": 25, "permitted-calls": 40, connections: 15, methods: 20, schedules: 15, "queue-mappings": 6, canaries: 3 })) ctx.require(k, n);
    autostubs();
    const world = await new World(undefined).open();
    world.clock.uninstall();
    const pg = await new FakePg("any").start();
    try {
      for (const dir of Object.keys(APPS)) await app(ctx, world, pg, dir);
    } finally {
      world.clock.install({ timersToo: false });
      await world.close();
      await pg.stop();
    }
  },
};

/** names a secret of the application could have to contain */
function names(dir) {
  const found = new Set();
  const prefixes = new Set();
  const walk = (d) => {
    for (const e of fs.readdirSync(d, { withFileTypes: true })) {
      const p = path.join(d, e.name);
      if (e.isDirectory()) walk(p);
      else if (p.endsWith(".ts")) {
        const t = fs.readFileSync(p, "utf8");
        for (const m of t.matchAll(/["'`]([\w.-]{2,40})["'`]/g)) found.add(m[1]);
        for (const m of t.matchAll(/\b(\w{2,40})\??:/g)) found.add(m[1]);
        for (const m of t.matchAll(/(?:SecretHolder|ProxyHolder|RdsHolder)[^;]{0,80}?["'`]([\w-]+)["'`]/g)) prefixes.add(m[1]);
      }
    }
  };
  walk(path.join(REPO, dir, "src"));
  return [...found, ...[...prefixes].flatMap((p) => [...found].map((n) => `${p}.${n}`))];
}

/** resolves what a template says to what it is at run time */
export function resolver(cfn) {
  const one = (v, arnWanted) => {
    if (v === null || v === undefined) return v;
    if (typeof v !== "object") return String(v);
    if (v["Fn::Join"]) return v["Fn::Join"][1].map((x) => one(x)).join(v["Fn::Join"][0]);
    if (v["Fn::Sub"]) return String([].concat(v["Fn::Sub"])[0]);
    const id = v.Ref ?? v["Fn::GetAtt"]?.[0];
    if (!id) return JSON.stringify(v);
    const pseudo = { "AWS::Partition": "aws", "AWS::Region": REGION, "AWS::AccountId": ACCOUNT, "AWS::URLSuffix": "amazonaws.com", "AWS::NoValue": undefined };
    if (id in pseudo) return pseudo[id];
    const r = cfn.byId(id);
    const arn = arnWanted || v["Fn::GetAtt"]?.[1] === "Arn";
    const p = r?.Properties ?? {};
    if (r?.Type === "AWS::S3::Bucket") return arn ? `arn:aws:s3:::${one(p.BucketName) ?? id.toLowerCase()}` : (one(p.BucketName) ?? id.toLowerCase());
    if (r?.Type === "AWS::SQS::Queue") return arn ? `arn:aws:sqs:${REGION}:${ACCOUNT}:${id}` : queueUrl(id);
    if (r?.Type === "AWS::SNS::Topic") return `arn:aws:sns:${REGION}:${ACCOUNT}:${one(p.TopicName) ?? id}`;
    if (r?.Type === "AWS::Lambda::Function") return arn ? `arn:aws:lambda:${REGION}:${ACCOUNT}:function:${one(p.FunctionName) ?? id}` : (one(p.FunctionName) ?? id);
    if (r?.Type === "AWS::SecretsManager::Secret") return `arn:aws:secretsmanager:${REGION}:${ACCOUNT}:secret:${one(p.Name) ?? id}-AbCdEf`;
    return arn ? `arn:aws:x:${REGION}:${ACCOUNT}:${id}` : id;
  };
  return one;
}

/** what a role may do; undefined = unknown */
export function permissions(cfn, role, res) {
  const id = target(role);
  const r = id && cfn.byId(id);
  if (!r) return undefined;
  const statements = [];
  const add = (doc) => statements.push(...[].concat(doc?.Statement ?? []));
  for (const p of r.Properties.Policies ?? []) add(p.PolicyDocument);
  for (const type of ["AWS::IAM::Policy", "AWS::IAM::ManagedPolicy"])
    for (const [pid, p] of cfn.of(type)) {
      const attached = (p.Properties.Roles ?? []).some((x) => target(x) === id) || (r.Properties.ManagedPolicyArns ?? []).some((x) => target(x) === pid);
      if (attached) add(p.Properties.PolicyDocument);
    }
  const managed = (r.Properties.ManagedPolicyArns ?? []).map((x) => res(x));
  const unknown = managed.filter((m) => /:aws:policy\//.test(m) && !/AWSLambda(BasicExecution|VPCAccessExecution)Role|CloudWatchSyntheticsFullAccess/.test(m));
  return {
    unknown,
    allows(action, resource) {
      let ok = false;
      for (const s of statements) {
        const as = [].concat(s.Action ?? []);
        const rs = [].concat(s.Resource ?? []).map((x) => res(x, false));
        if (!as.some((a) => iamMatch(String(a).toLowerCase(), action.toLowerCase()))) continue;
        if (!rs.some((x) => x !== undefined && iamMatch(x, resource))) continue;
        if (s.Effect === "Deny") return false;
        if (!s.Condition) ok = true;
      }
      return ok;
    },
  };
}

/** an AWS request as [action, resource] */
function call(r) {
  if (r.target?.startsWith("secretsmanager.")) return [`secretsmanager:${r.target.split(".")[1]}`, `arn:aws:secretsmanager:${REGION}:${ACCOUNT}:secret:${JSON.parse(r.body).SecretId}-AbCdEf`];
  if (r.service === "s3") {
    const [, bucket, ...key] = r.path.split("/");
    const k = key.join("/");
    const what = k ? { PUT: "s3:PutObject", POST: "s3:PutObject", GET: "s3:GetObject", HEAD: "s3:GetObject", DELETE: "s3:DeleteObject" }[r.method] : r.method === "GET" ? "s3:ListBucket" : undefined;
    return what && [what, k ? `arn:aws:s3:::${bucket}/${k}` : `arn:aws:s3:::${bucket}`];
  }
  if (r.service === "sns") {
    const p = new URLSearchParams(r.body.toString());
    return p.get("Action") === "Publish" ? ["sns:Publish", p.get("TopicArn")] : undefined;
  }
  return undefined;
}

const SQS = (body) => ({ Records: [{ messageId: "m1", receiptHandle: "h", body, attributes: { ApproximateReceiveCount: "1", SentTimestamp: "1700000000000" }, messageAttributes: {}, eventSource: "aws:sqs", eventSourceARN: "arn:aws:sqs:eu-west-1:123456789012:q" }] });
const SNS = (m) => ({ Records: [{ EventSource: "aws:sns", Sns: { Message: m, Timestamp: "2024-01-01T00:00:00Z", MessageAttributes: {} } }] });
const API = (o = {}) => ({ httpMethod: "GET", path: "/x", headers: {}, multiValueHeaders: {}, queryStringParameters: null, multiValueQueryStringParameters: null, pathParameters: null, requestContext: { path: "/x", identity: { sourceIp: "1.1.1.1" } }, body: null, isBase64Encoded: false, ...o });
const EVENTS = [
  {},
  { version: "0", id: "e", "detail-type": "Scheduled Event", source: "aws.events", time: "2024-01-01T00:00:00Z", region: REGION, resources: [], detail: {} },
  { Records: [] },
  SQS("{}"),
  SQS(JSON.stringify([{ a: 1 }])),
  SQS("not json"),
  SNS("FIKEK"),
  SNS("{}"),
  API(),
  API({ httpMethod: "POST", body: "{}" }),
  API({ queryStringParameters: { locode: "FIKEK", year: "2024", interval: "24" } }),
  { body: "<a/>" },
  { locode: "FIKEK" },
  { datex2Version: "3.5", "last-updated": "false" },
];
const KEEP = /^(PATH|HOME|TZ|TMPDIR|NODE_.*|VERIF_.*|AWS_(ENDPOINT_URL|MAX_ATTEMPTS|EC2_METADATA_DISABLED|REGION|ACCESS_KEY_ID|SECRET_ACCESS_KEY))$/;

async function app(ctx, world, pg, dir) {
  let built;
  try {
    built = await appBuild(dir);
  } catch (e) {
    return ctx.violation(`synth:${dir}`, "the application's template cannot be made", { error: String(e?.stack ?? e).slice(0, 600) });
  }
  ctx.observe("apps");
  const secret = JSON.stringify(Object.assign(Object.fromEntries(names(dir).map((n) => [n, world.url])), { username: "u", password: "p", host: pg.uri, ro_host: pg.uri, proxy_host: pg.uri, proxy_ro_host: pg.uri }));
  world.secrets = { get: () => secret, set: () => {} };
  world.serve = async () => ({ body: "{}" });
  for (const f of built.functions) {
    if (f.inline || f.foreign) continue;
    await fn(ctx, world, pg, dir, f);
  }
  for (const c of built.canaries) {
    ctx.observe("canaries");
    ctx.case(["canary", dir, c.name]);
    ctx.expect(c.src, `handler:${dir}:${c.name}`, "a canary's handler is not in its package", { handler: c.p.Code.Handler });
    if (c.src) await loads(ctx, dir, c.name, c.src, Object.fromEntries(Object.entries(c.p.RunConfig?.EnvironmentVariables ?? {}).map(([k, v]) => [k, resolver(c.cfn)(v)])));
  }
  for (const cfn of built.cfns) edges(ctx, dir, cfn);
}

const watched = (target, missing) =>
  new Proxy(target, {
    get(t, k) {
      if (typeof k === "string" && !(k in t)) missing.add(k);
      return t[k];
    },
    set(t, k, v) {
      t[k] = String(v);
      return true;
    },
  });

/** with process.env being exactly `env` (and what the platform itself needs) */
async function within(env, missing, f) {
  const real = process.env;
  const base = Object.fromEntries(Object.entries(real).filter(([k]) => KEEP.test(k)));
  process.env = watched({ ...base, AWS_LAMBDA_FUNCTION_NAME: "f", ...env }, missing);
  try {
    return await f();
  } finally {
    process.env = real;
  }
}
async function loads(ctx, dir, name, src, env) {
  return within(env, new Set(), async () => {
    let m;
    try {
      m = await repo(src.src, { isolated: true });
    } catch (e) {
      ctx.violation(`load:${dir}:${name}`, "the module of a deployed function cannot be loaded with the settings it is given", { source: src.src, error: String(e).slice(0, 400) });
      return undefined;
    }
    if (!ctx.expect(typeof m[src.export] === "function", `export:${dir}:${name}`, "a deployed function's handler is not a function of its module", { source: src.src, export: src.export, type: typeof m[src.export] })) return undefined;
    ctx.observe("loaded");
    return m[src.export];
  });
}

async function fn(ctx, world, pg, dir, f) {
  const res = resolver(f.cfn);
  ctx.observe("functions");
  const where = `${dir}:${f.name}`;
  if (!ctx.expect(f.src, `handler:${where}`, "a deployed function's handler is not in its package", { handler: f.p.Handler, asset: f.asset })) return;
  const env = {};
  for (const [k, v] of Object.entries(f.p.Environment?.Variables ?? {})) {
    env[k] = res(v);
    ctx.expect(!/^(undefined|null|NaN|\[object Object\])$/.test(String(env[k])), `environment:${where}:${k}`, "a setting given to a function is no value", { key: k, value: env[k] });
  }
  const perms = permissions(f.cfn, f.p.Role, res);
  handed(ctx, f, where, env, perms);
  const handler = await loads(ctx, dir, f.name, f.src, env);
  if (!handler) return;
  const missing = new Set();
  globalThis.__sqs = {
    send: async (i) => (calls.push(["sqs:SendMessage", i.QueueUrl]), { MessageId: "1" }),
    sendBatch: async (i) => (calls.push(["sqs:SendMessage", i.QueueUrl]), { Successful: [], Failed: [] }),
    park: async () => "k",
    unpark: async () => "{}",
  };
  let calls = [];
  const judged = new Set();
  world.aws = async (r) => (r.service === "s3" && r.method === "GET" ? { body: "{}" } : r.service === "sns" ? { headers: { "content-type": "text/xml" }, body: "<PublishResponse><PublishResult><MessageId>1</MessageId></PublishResult></PublishResponse>" } : r.service === "s3" ? { headers: { etag: '"x"' }, body: "" } : { status: 400, body: "{}" });
  for (const [i, event] of EVENTS.entries()) {
    calls = [];
    const mark = world.fake.requests.length;
    const sessions = pg.sessions.length;
    globalThis.__vlog.lines.length = 0;
    let text = "";
    await within(env, missing, async () => {
      let timer;
      // a fresh module per invocation: nothing remembered from earlier ones
      const h = i ? (await repo(f.src.src, { isolated: true }))[f.src.export] : handler;
      try {
        const r = await Promise.race([
          (async () => h(structuredClone(event), { awsRequestId: "r", functionName: f.name, getRemainingTimeInMillis: () => 5000 }, () => {}))(),
          new Promise((_, j) => (timer = setTimeout(() => j(new Error("slow")), ctx.n(1000, 4000)))),
        ]);
        text = r === undefined ? "" : String(JSON.stringify(r) ?? "").slice(0, 2000);
        ctx.observe("completed");
      } catch (e) {
        text = `${e?.message ?? e}`;
        if (text === "slow") ctx.observe("slow-invocations");
        else ctx.observe("failed-invocations");
      } finally {
        clearTimeout(timer);
      }
      ctx.observe("invocations");
      ctx.case([where, i]);
      const all = text + "\n" + globalThis.__vlog.lines.join("\n");
      for (const k of missing)
        if (/^[A-Z][A-Z0-9_]+$/.test(k) && new RegExp(`\\b${k}\\b[^\\n]{0,12}(is )?(undefined|missing|not (set|found|defined))`).test(all)) ctx.violation(`setting:${where}:${k}`, "a deployed function asks for a setting its template does not give", { key: k, env: Object.keys(env), text: all.slice(0, 300) });
      // what it asked of AWS
      for (const r of world.fake.requests.slice(mark)) {
        const c = call(r);
        if (c) calls.push(c);
        if (c?.[0].startsWith("secretsmanager")) ctx.observe("secrets-read");
      }
      for (const [action, resource] of calls) {
        const arn = resource?.startsWith("https://sqs.") ? `arn:aws:sqs:${REGION}:${ACCOUNT}:${resource.split("/").at(-1)}` : resource;
        const key = `${action} ${arn?.replace(/[^/]*\d{2,}.*$/, "")}`;
        if (judged.has(key)) continue;
        judged.add(key);
        if (!perms || perms.unknown.length) {
          ctx.observe("unknown-permissions");
          continue;
        }
        if (ctx.expect(perms.allows(action, arn), `permission:${where}:${action}`, "a deployed function makes a call its role does not allow", { action, resource: arn })) ctx.observe("permitted-calls");
      }
      if (pg.sessions.length > sessions && !judged.has("db")) {
        judged.add("db");
        ctx.observe("connections");
        const sgs = [].concat(f.p.VpcConfig?.SecurityGroupIds ?? []).map((x) => res(x));
        ctx.expect(sgs.includes("sg-db"), `database:${where}`, "a function that uses the database is outside its security group", { sgs });
      }
    });
  }
  for (const s of pg.sessions) s.socket.destroy();
}

/** a queue, topic or bucket of the application that a function is told about is one it may use */
function handed(ctx, f, where, env, perms) {
  if (!perms || perms.unknown.length) return;
  const res = resolver(f.cfn);
  for (const [type, actions, ref, arn] of [
    ["AWS::SQS::Queue", ["sqs:SendMessage", "sqs:ReceiveMessage"], (id) => queueUrl(id), (id) => `arn:aws:sqs:${REGION}:${ACCOUNT}:${id}`],
    ["AWS::SNS::Topic", ["sns:Publish"], (id) => res({ Ref: id }), (id) => res({ Ref: id })],
    ["AWS::S3::Bucket", ["s3:PutObject", "s3:GetObject"], (id) => res({ Ref: id }), (id) => `arn:aws:s3:::${res({ Ref: id })}/some/key`],
  ])
    for (const [id] of f.cfn.of(type))
      for (const [k, v] of Object.entries(env))
        if (v === ref(id)) {
          ctx.observe("resources-handed");
          ctx.expect(actions.some((a) => perms.allows(a, arn(id))), `handed:${where}:${k}`, "a function is told about a resource its role does not let it use", { key: k, resource: id });
        }
}

/** everything that is to lead to a function does, and may invoke it */
function edges(ctx, dir, cfn) {
  const res = resolver(cfn);
  const isFn = (id) => ["AWS::Lambda::Function", "AWS::Lambda::Alias"].includes(cfn.byId(id)?.Type);
  const grants = cfn.props("AWS::Lambda::Permission").map((p) => ({ fn: target(p.FunctionName), by: p.Principal, source: p.SourceArn }));
  for (const [id, r] of cfn.of("AWS::ApiGateway::Method")) {
    const uri = r.Properties.Integration?.Uri;
    if (!uri || !/^AWS/.test(r.Properties.Integration.Type)) continue;
    const t = fnOf(uri, isFn);
    if (!t && !/lambda/.test(JSON.stringify(uri))) continue;
    ctx.observe("methods");
    ctx.case(["method", dir, id]);
    if (!ctx.expect(t, `method:${dir}:${id}`, "an API method leads to no function of the application", { uri: res(uri) })) continue;
    ctx.expect(r.Properties.Integration.Credentials || grants.some((g) => g.fn === t && g.by === "apigateway.amazonaws.com"), `method-permission:${dir}:${id}`, "an API method may not invoke its function", { fn: t });
  }
  for (const [id, r] of cfn.of("AWS::Events::Rule"))
    for (const tg of r.Properties.Targets ?? []) {
      const t = target(tg.Arn);
      ctx.observe("schedules");
      ctx.case(["schedule", dir, id]);
      if (!ctx.expect(isFn(t), `schedule:${dir}:${id}`, "a schedule leads to no function of the application", { arn: res(tg.Arn) })) continue;
      ctx.expect(grants.some((g) => g.fn === t && g.by === "events.amazonaws.com" && (!g.source || target(g.source) === id)), `schedule-permission:${dir}:${id}`, "a schedule may not invoke its function", { fn: t });
      ctx.expect(r.Properties.State !== "DISABLED", `schedule-state:${dir}:${id}`, "a schedule is switched off", {});
    }
  for (const [id, r] of cfn.of("AWS::Lambda::EventSourceMapping")) {
    const t = target(r.Properties.FunctionName);
    const queue = cfn.byId(target(r.Properties.EventSourceArn));
    ctx.observe("queue-mappings");
    ctx.case(["mapping", dir, id]);
    if (!ctx.expect(isFn(t), `mapping:${dir}:${id}`, "a queue leads to no function of the application", {})) continue;
    if (queue?.Type !== "AWS::SQS::Queue") continue;
    const perms = permissions(cfn, cfn.byId(t).Properties.Role, res);
    const arn = res(r.Properties.EventSourceArn);
    for (const a of ["sqs:ReceiveMessage", "sqs:DeleteMessage", "sqs:GetQueueAttributes"]) if (perms && !perms.unknown.length) ctx.expect(perms.allows(a, arn), `mapping-permission:${dir}:${id}`, "the consumer of a queue may not read it", { action: a, arn });
  }
  for (const [id, r] of cfn.of("AWS::SNS::Subscription")) {
    if (r.Properties.Protocol !== "lambda") continue;
    const t = target(r.Properties.Endpoint);
    ctx.observe("subscriptions");
    ctx.case(["subscription", dir, id]);
    if (!ctx.expect(isFn(t), `subscription:${dir}:${id}`, "a topic leads to no function of the application", {})) continue;
    ctx.expect(grants.some((g) => g.fn === t && g.by === "sns.amazonaws.com"), `subscription-permission:${dir}:${id}`, "a topic may not invoke its function", { fn: t });
  }
}
/** the function an integration's URI names */
function fnOf(v, isFn) {
  if (v === null || typeof v !== "object") return undefined;
  const id = v.Ref ?? v["Fn::GetAtt"]?.[0];
  if (id && isFn(id)) return id;
  for (const x of Object.values(v)) {
    const t = Array.isArray(x) ? x.map((y) => fnOf(y, isFn)).find(Boolean) : fnOf(x, isFn);
    if (t) return t;
  }
  return undefined;
}

import vm from "node:vm";
import { createRequire } from "node:module";
import { lib, LIB, libPackage } from "../harness/hooks.mjs";
import { build, inScratch, cdk, cdkMod } from "../harness/infra.mjs";
import { target, text, iamMatch } from "../harness/cfn.mjs";
import { renderRequest } from "../harness/apigw.mjs";
import { FakeAws } from "../harness/fakeaws.mjs";
import { VirtualClock } from "../harness/clock.mjs";

const { DigitrafficSqsQueue, DigitrafficDLQueue } = await lib("aws/infra/sqs-queue.ts");
const { sanitizeS3BucketName } = await lib("aws/infra/sqs-queue-internal.ts");
const { attachQueueToApiGatewayResource } = await lib("aws/infra/sqs-integration.ts");
const s3runtime = await lib("aws/runtime/s3.ts");
const sqs = cdkMod("aws-sqs");
const apigw = cdkMod("aws-apigateway");
const { Duration } = cdk;
const s3sdk = libPackage("@aws-sdk/client-s3");
void createRequire;
void LIB;

export default {
  id: "P16",
  rule: "A case is one queue set-up (queue, fifo, dead-letter archive, API in front) synthesized and audited, one client message sent through the synthesized API integration into a model queue that may refuse it, or one delivery history of dead letters to the synthesized archive function against a faulty object store; non-trivial when a message or queue was judged.",
  assumptions: ["A queue delivers a batch again when the function fails and forgets it when it succeeds; two invocations of the archive function are at least a millisecond apart and do not overlap (its concurrency is 1).", "The object store is a loopback endpoint reached by the real SDK client."],
  async run(ctx) {
    ctx.require("queues", 60);
    ctx.require("dlqs", 20);
    ctx.require("api-messages", 1000);
    ctx.require("refused-messages", 200);
    ctx.require("archived", 200);
    ctx.require("redelivered", 50);
    await inScratch(async () => {
      for (let i = 0; i < ctx.n(40, 300); i++) infra(ctx, ctx.rng, i);
      await archive(ctx, ctx.rng);
      await upload(ctx, ctx.rng);
    });
    names(ctx, ctx.rng);
  },
};

const bodies = (rng) =>
  rng.pick([
    () => "",
    () => JSON.stringify({ a: rng.text(60), n: rng.int(0, 99) }),
    () => "t" + rng.text(200),
    () => "&Action=DeleteMessage&MessageBody=x",
    () => "a=b&c=d%20e+f%",
    () => "<xml attr=\"1\">€ \u{1F600}</xml>",
    () => "${x} $util #set($a=1) $& $1 `tick` \\ \"q\" 'q'",
    () => "line\nline\r\n\ttab",
    () => rng.word(5000, 20000),
  ])();

function infra(ctx, rng, i) {
  const shortName = rng.pick(["Tst", "MyApp"]);
  const items = [];
  const apis = [];
  const r = ctx.attemptSync(() => build((stack) => {
    const api = new apigw.RestApi(stack, "Api", { deploy: true });
    api.root.addMethod("GET", new apigw.MockIntegration());
    const validator = api.addRequestValidator("V", { validateRequestBody: true });
    for (let k = 0; k < rng.int(1, 3); k++) {
      const name = rng.pick(["Msg", "TimeStamps", "x", "A-B"]) + k;
      const kind = rng.pick(["queue", "queue", "fifo", "own", "dlq"]);
      const props = {};
      const extra = {};
      if (rng.bool(0.5)) props.visibilityTimeout = Duration.seconds((extra.visibility = rng.pick([30, 60, 120, 901])));
      if (rng.bool(0.3)) props.retentionPeriod = Duration.days((extra.days = rng.int(1, 14)));
      if (rng.bool(0.3)) props.encryption = rng.pick([sqs.QueueEncryption.UNENCRYPTED, sqs.QueueEncryption.SQS_MANAGED]);
      if (rng.bool(0.2)) props.queueName = "other-name";
      let q;
      let dlq;
      if (kind === "own" || (kind === "fifo" && rng.bool(0.4))) {
        dlq = new sqs.Queue(stack, "Own" + k, { fifo: kind === "fifo" ? true : undefined, encryption: sqs.QueueEncryption.KMS_MANAGED });
        props.deadLetterQueue = { queue: dlq, maxReceiveCount: (extra.max = rng.int(1, 9)) };
      }
      if (kind === "fifo") {
        if (rng.bool()) props.contentBasedDeduplication = extra.dedup = true;
        q = DigitrafficSqsQueue.createFifo(stack, name, props);
      } else if (kind === "dlq") q = DigitrafficDLQueue.create(stack, name);
      else q = DigitrafficSqsQueue.create(stack, name, props);
      items.push({ kind, name, extra, own: dlq && stack.resolve(dlq.queueArn) });
      if (rng.bool(0.6) && kind !== "dlq") {
        const key = rng.bool();
        const res = api.root.addResource("r" + k);
        const models = rng.bool() ? { "application/json": api.addModel("M" + k, { contentType: "application/json", schema: {} }) } : undefined;
        attachQueueToApiGatewayResource(stack, q, res, validator, "Res" + k, key, models);
        apis.push({ part: "r" + k, key, fifo: kind === "fifo", item: items.at(-1), models: !!models });
      }
    }
  }, { shortName }, "Stack" + i));
  const w0 = () => ({ shortName, items, apis: apis.map(({ item, ...x }) => x) });
  if (!ctx.expect(r.ok, "synth", "valid queues were refused", () => ({ ...w0(), error: r.error?.stack }))) return;
  const cfn = r.value;
  ctx.case([shortName, items, apis.length], true, items);
  const queues = cfn.of("AWS::SQS::Queue");
  const byName = (n) => queues.find(([, q]) => q.Properties?.QueueName === n);
  for (const it of items) {
    const w = () => ({ ...w0(), it, queues });
    const full = it.kind === "dlq" ? `${shortName}-${it.name}-DLQ` : `${shortName}-${it.name}-Queue${it.kind === "fifo" ? ".fifo" : ""}`;
    const q = byName(full);
    it.logical = q?.[0];
    if (!ctx.expect(!!q, "queue", "a queue is missing or misnamed", () => ({ ...w(), full }))) continue;
    ctx.observe("queues");
    const p = q[1].Properties;
    ctx.expect(p.KmsMasterKeyId === "alias/aws/sqs", "encryption", "a queue is not encrypted", w);
    if (it.kind === "dlq") { dlq(ctx, cfn, it, full, q[0], shortName, w); continue; }
    if (it.extra.visibility) ctx.expect(p.VisibilityTimeout === it.extra.visibility, "visibility", "the visibility timeout asked for is lost", w);
    if (it.extra.days) ctx.expect(p.MessageRetentionPeriod === it.extra.days * 86400, "retention", "the retention asked for is lost", w);
    ctx.expect(!!p.FifoQueue === (it.kind === "fifo"), "fifo", "a queue is fifo and should not be, or the reverse", w);
    if (it.kind === "fifo") ctx.expect(!!p.ContentBasedDeduplication === !!it.extra.dedup, "dedup", "deduplication is not as asked for", w);
    const rd = p.RedrivePolicy;
    if (it.own) ctx.equal([rd?.maxReceiveCount, target(rd?.deadLetterTargetArn)], [it.extra.max, target(it.own)], "own-dlq", "the queue does not use the dead-letter queue it was given", w);
    else if (it.kind === "queue") {
      const dn = `${shortName}-${it.name}-DLQ`;
      const d = byName(dn);
      if (ctx.expect(!!d && target(rd?.deadLetterTargetArn) === d[0] && rd.maxReceiveCount === 2, "dlq", "a queue without own dead-letter queue does not get one after two attempts", () => ({ ...w(), rd }))) dlq(ctx, cfn, it, dn, d[0], shortName, w);
    } else ctx.expect(rd === undefined, "fifo-dlq", "a fifo got a dead-letter queue nobody asked for", w);
  }
  for (const a of apis) if (a.item.logical) api(ctx, rng, cfn, a, w0);
}

function dlq(ctx, cfn, it, name, id, shortName, w) {
  ctx.observe("dlqs");
  const p = cfn.byId(id).Properties;
  const fnName = name + "-Function";
  const fn = cfn.find("AWS::Lambda::Function", (x) => x.FunctionName === fnName);
  if (!ctx.expect(!!fn, "archive-function", "a dead-letter queue has no archive function", () => ({ ...w(), fnName }))) return;
  const F = fn[1].Properties;
  const code = F.Code.ZipFile;
  const buckets = cfn.of("AWS::S3::Bucket");
  const refs = text(code).match(/\$\{(\w+)\}/g)?.map((x) => x.slice(2, -1)).filter((x) => buckets.some(([b]) => b === x)) ?? [];
  const bucket = cfn.byId(refs[0]);
  ctx.expect(new Set(refs).size === 1 && bucket?.Type === "AWS::S3::Bucket", "archive-bucket", "the archive function does not write to one bucket of its own", () => ({ ...w(), refs }));
  if (!bucket) return;
  const b = bucket.Properties;
  ctx.expect(["BlockPublicAcls", "BlockPublicPolicy", "IgnorePublicAcls", "RestrictPublicBuckets"].every((k) => b.PublicAccessBlockConfiguration?.[k] === true), "bucket-public", "the archive bucket is not closed to the public", () => ({ ...w(), b }));
  ctx.expect(/^[a-z0-9][a-z0-9-]{1,61}[a-z0-9]$/.test(b.BucketName ?? ""), "bucket-name", "the archive bucket has an invalid name", () => ({ ...w(), name: b.BucketName }));
  const others = buckets.filter(([, x]) => x !== bucket).map(([, x]) => x.Properties.BucketName);
  ctx.expect(!others.includes(b.BucketName), "bucket-shared", "two dead-letter queues share a bucket name", () => ({ ...w(), others }));
  ctx.expect(F.ReservedConcurrentExecutions === 1, "archive-concurrency", "archive invocations may overlap and overwrite each other's objects", () => ({ ...w(), F }));
  ctx.expect(String(F.Handler) === "index.handler" && /^nodejs/.test(F.Runtime), "archive-handler", "the archive function cannot run its inline code", () => ({ ...w(), F }));
  const size = text(code).length;
  ctx.expect(size <= 4096, "archive-size", "the archive function's inline code is longer than the platform allows", () => ({ ...w(), size }));
  const vis = p.VisibilityTimeout ?? 30;
  ctx.expect(vis >= (F.Timeout ?? 3), "archive-visibility", "dead letters become visible again while still being archived", () => ({ ...w(), vis, timeout: F.Timeout }));
  const maps = cfn.props("AWS::Lambda::EventSourceMapping").filter((m) => target(m.EventSourceArn) === id);
  ctx.expect(maps.length === 1 && target(maps[0].FunctionName) === fn[0] && maps[0].Enabled !== false && !maps[0].FilterCriteria, "archive-source", "dead letters do not reach the archive function", () => ({ ...w(), maps }));
  const roleId = target(F.Role);
  const st = cfn.props("AWS::IAM::Policy").filter((x) => x.Roles.some((y) => target(y) === roleId)).flatMap((x) => x.PolicyDocument.Statement);
  const may = (action, res) => st.some((s) => s.Effect === "Allow" && [].concat(s.Action).some((a) => iamMatch(a, action)) && [].concat(s.Resource).some((x) => iamMatch(text(x), res)));
  const arn = text({ "Fn::GetAtt": [refs[0], "Arn"] });
  ctx.expect(may("s3:PutObject", arn + "/dlq-1-0.json"), "archive-permission", "the archive function may not write to its bucket", () => ({ ...w(), st }));
  for (const a of ["sqs:ReceiveMessage", "sqs:DeleteMessage"]) ctx.expect(may(a, text({ "Fn::GetAtt": [id, "Arn"] })), "archive-receive", "the archive function may not receive dead letters", () => ({ ...w(), st }));
  ctx.expect(!may("s3:PutObject", "arn:aws:s3:::other/x") && !may("s3:GetObject", arn + "/x") && !may("s3:DeleteObject", arn + "/x"), "archive-privilege", "the archive function may do more than write to its bucket", () => ({ ...w(), st }));
  const alarm = cfn.props("AWS::CloudWatch::Alarm").filter((a) => a.Namespace === "AWS/SQS" && (a.Dimensions ?? []).some((d) => d.Name === "QueueName" && target(d.Value) === id));
  const fires = (v) => alarm.some((a) => ({ GreaterThanThreshold: v > a.Threshold, GreaterThanOrEqualToThreshold: v >= a.Threshold })[a.ComparisonOperator] && a.EvaluationPeriods === 1 && a.TreatMissingData !== "breaching" && ["Sum", "Maximum"].includes(a.Statistic) && ["NumberOfMessagesReceived", "NumberOfMessagesSent", "ApproximateNumberOfMessagesVisible"].includes(a.MetricName));
  ctx.expect(fires(1) && fires(50) && !fires(0), "dlq-alarm", "a dead letter does not raise an alarm, or none does", () => ({ ...w(), alarm }));
  ctx.expect(alarm.length === 1 && alarm[0].AlarmActions?.length === 1 && /warning/i.test(String(cfn.template.Parameters?.[target(alarm[0].AlarmActions[0])]?.Default ?? text(alarm[0].AlarmActions[0]))), "dlq-alarm-topic", "the dead-letter alarm does not notify the warning topic", () => ({ ...w(), alarm }));
  (ctx.archives ??= []).push({ code: text(code).replaceAll("${" + refs[0] + "}", b.BucketName), bucket: b.BucketName });
  void shortName;
}

/** one API integration: a client sends messages, the model queue accepts or refuses them */
function api(ctx, rng, cfn, a, w0) {
  const res = cfn.find("AWS::ApiGateway::Resource", (p) => p.PathPart === a.part);
  const m = cfn.find("AWS::ApiGateway::Method", (p) => target(p.ResourceId) === res?.[0] && p.HttpMethod === "POST")?.[1].Properties;
  const w = () => ({ ...w0(), a: { ...a, item: a.item.name }, m });
  if (!ctx.expect(!!m, "api-method", "the queue cannot be posted to", w)) return;
  ctx.expect(!!m.ApiKeyRequired === a.key, "api-key", "the key requirement is not as asked for", w);
  ctx.expect(!!target(m.RequestValidatorId), "api-validator", "requests are not validated", w);
  ctx.expect(!!m.RequestModels?.["application/json"] === a.models, "api-models", "requests are not validated against the given model", w);
  const I = m.Integration;
  ctx.expect(I.Type === "AWS" && I.IntegrationHttpMethod === "POST" && I.RequestParameters?.["integration.request.header.Content-Type"] === "'application/x-www-form-urlencoded'", "api-call", "the queue service cannot understand the integration's call", w);
  const uri = text(I.Uri);
  ctx.expect(uri.includes(":sqs:path/") && uri.endsWith(`/\${${a.item.logical}.QueueName}`), "api-queue", "messages are sent to another queue", () => ({ ...w(), uri }));
  ctx.expect(I.PassthroughBehavior === "NEVER", "api-passthrough", "bodies of other types are passed to the queue service unmapped", w);
  const roleId = target(I.Credentials);
  const role = cfn.byId(roleId)?.Properties;
  ctx.expect(JSON.stringify(role?.AssumeRolePolicyDocument?.Statement ?? "").includes("apigateway.amazonaws.com"), "api-role", "API Gateway may not assume the sending role", w);
  const st = cfn.props("AWS::IAM::Policy").filter((x) => x.Roles.some((y) => target(y) === roleId)).flatMap((x) => x.PolicyDocument.Statement);
  const may = (action, r) => st.some((s) => s.Effect === "Allow" && [].concat(s.Action).some((x) => iamMatch(x, action)) && [].concat(s.Resource).some((x) => iamMatch(text(x), r)));
  const arn = `\${${a.item.logical}.Arn}`;
  ctx.expect(may("sqs:SendMessage", arn), "api-permission", "API Gateway may not send to the queue", () => ({ ...w(), st }));
  ctx.expect(!may("sqs:SendMessage", "arn:aws:sqs:eu-west-1:1:other") && !may("sqs:ReceiveMessage", arn) && !may("sqs:DeleteMessage", arn), "api-privilege", "API Gateway may do more than send to the queue", () => ({ ...w(), st }));
  const codes = (m.MethodResponses ?? []).map((x) => String(x.StatusCode));
  for (let k = 0; k < ctx.n(40, 120); k++) {
    const body = bodies(rng);
    const queue = [];
    const rendered = renderRequest(I.RequestTemplates["application/json"], { body });
    const form = new URLSearchParams(rendered);
    const fault = rng.pick([0, 0, 0, 400, 403, 404, 413, 500, 503]);
    let status = fault || 200;
    if (!fault) {
      if (form.get("Action") !== "SendMessage" || !form.has("MessageBody")) status = 400;
      else if (a.fifo !== form.has("MessageGroupId")) status = 400;
      else if (form.get("MessageBody") === "") status = 400; // the service refuses empty messages
      else queue.push(form.getAll("MessageBody"));
    }
    const list = I.IntegrationResponses;
    const hit = list.find((x) => x.SelectionPattern && new RegExp("^(?:" + x.SelectionPattern + ")$").test(String(status))) ?? list.find((x) => !x.SelectionPattern);
    ctx.observe("api-messages");
    if (status !== 200) ctx.observe("refused-messages");
    const ww = () => ({ ...w(), body, rendered, status, answered: hit });
    if (!fault && body !== "") ctx.equal(queue, [[body]], "api-body", "the message in the queue is not the client's body", ww);
    ctx.expect([...form.keys()].every((x) => ["Action", "MessageBody", "MessageGroupId", "Version"].includes(x)), "api-injection", "the client's body adds parameters to the call", ww);
    ctx.expect((String(hit?.StatusCode) === "200") === (queue.length === 1), queue.length ? "api-denied" : "api-lost", queue.length ? "a queued message is answered as a failure" : "a message that was not queued is answered with success", ww);
    ctx.expect(codes.includes(String(hit?.StatusCode)), "api-answer", "the answer's status is not declared for the method", ww);
    ctx.case(["msg", body, status, a.fifo], true);
  }
}

/** delivers batches of dead letters to synthesized archive functions */
async function archive(ctx, rng) {
  const aws = await new FakeAws().start();
  process.env.AWS_REGION = "eu-west-1";
  process.env.AWS_ACCESS_KEY_ID = "a";
  process.env.AWS_SECRET_ACCESS_KEY = "b";
  const clock = new VirtualClock(Date.UTC(2026, 0, 1)).install({ timersToo: false });
  let plan = () => undefined;
  const stored = new Map();
  let overwritten = 0;
  aws.handle = async (r) => {
    const f = plan();
    if (f === "destroy") return { destroy: true };
    if (f) return { status: f, body: `<Error><Code>X</Code></Error>`, headers: { "content-type": "application/xml" } };
    if (r.method !== "PUT") return { status: 400 };
    if (stored.has(r.path)) overwritten++;
    stored.set(r.path, r.body.toString("utf8"));
    return { status: 200, headers: { etag: '"x"' } };
  };
  const bucketOf = (p, b) => p.startsWith(`/${b}/`);
  try {
    for (const [n, ar] of rng.shuffle([...(ctx.archives ?? [])]).slice(0, ctx.n(24, 100)).entries()) {
      const lines = [];
      const exports = {};
      const sandbox = vm.createContext({
        require: (m) => {
          if (m === "@aws-sdk/client-s3") return s3sdk;
          throw new Error("not available in the function: " + m);
        },
        exports, module: { exports }, console: { log: (...x) => lines.push(x.join(" ")), error: (...x) => lines.push(x.join(" ")) },
        process: { env: { AWS_LAMBDA_FUNCTION_NAME: "dlq-fn", AWS_EXECUTION_ENV: "AWS_Lambda_nodejs" }, stdout: { write: (x) => (lines.push(String(x).trimEnd()), true) } },
        Date, setTimeout, clearTimeout, Buffer, URL, TextEncoder, TextDecoder,
      });
      const load = ctx.attemptSync(() => vm.runInContext(ar.code, sandbox));
      if (!ctx.expect(load.ok && typeof exports.handler === "function", "archive-code", "the archive function's code does not load", () => ({ error: load.error?.stack, code: ar.code }))) continue;
      stored.clear();
      overwritten = 0;
      const queue = Array.from({ length: rng.int(5, 60) }, (_, k) => ({ messageId: `m${k}`, body: bodies(rng) || "x" }));
      const gone = [];
      let rounds = 0;
      const p = rng.pick([0, 0.1, 0.4, 0.8]);
      const history = [];
      while (queue.length && rounds++ < 300) {
        const batch = queue.splice(0, rng.int(1, 10));
        const healthy = rounds > 40; // the store recovers eventually
        plan = () => (!healthy && rng.bool(p) ? rng.pick([500, 503, 403, 404, "destroy"]) : undefined);
        const before = new Map(stored);
        const logged = lines.length;
        const r = await ctx.attempt(() => exports.handler({ Records: batch.map((m) => ({ messageId: m.messageId, body: m.body, attributes: {}, messageAttributes: {} })) }, {}));
        clock.now += rng.int(1, 2000);
        const fresh = [...stored].filter(([k]) => !before.has(k) && bucketOf(k, ar.bucket)).map(([, v]) => v);
        let failed = r.ok ? new Set((r.value?.batchItemFailures ?? []).map((x) => x.itemIdentifier)) : new Set(batch.map((m) => m.messageId));
        history.push([batch.map((m) => m.messageId), r.ok, fresh.length]);
        for (const m of batch) {
          if (failed.has(m.messageId)) { queue.push(m); ctx.observe("redelivered"); continue; }
          gone.push(m);
          const at = fresh.indexOf(m.body);
          ctx.observe("archived");
          ctx.expect(at >= 0, "archive-lost", "a dead letter was removed from the queue without being archived", () => ({ message: m, fresh, history: history.slice(-4), p }));
          if (at >= 0) fresh.splice(at, 1);
        }
        if (!r.ok) ctx.expect(lines.slice(logged).some((l) => { try { return JSON.parse(l).level === "ERROR"; } catch { return false; } }), "archive-silent", "a failed upload was not logged", () => lines.slice(logged));
        else if (batch.length && !p) ctx.expect(lines.length === logged, "archive-noise", "an archived batch logged an error", () => lines.slice(logged));
        ctx.case(["batch", n, batch, r.ok, fresh.length], true, { batch: batch.length, ok: r.ok });
      }
      ctx.expect(!queue.length, "archive-stuck", "dead letters are never archived although the store works", () => ({ left: queue.length, history: history.slice(-3) }));
      ctx.expect(!overwritten, "archive-overwrite", "an archived dead letter was overwritten by another", () => ({ overwritten, gone: gone.length }));
      ctx.expect([...stored.keys()].every((k) => bucketOf(k, ar.bucket)), "archive-elsewhere", "a dead letter was written to another bucket", () => [...stored.keys()].slice(0, 5));
    }
  } finally {
    clock.uninstall();
    await aws.stop();
  }
}

/** the runtime helper other archive functions use */
async function upload(ctx, rng) {
  const aws = await new FakeAws().start();
  const s3 = new s3sdk.S3Client({ forcePathStyle: true });
  let fault;
  let got;
  aws.handle = async (r) => {
    if (fault) return { status: fault, body: "<Error><Code>X</Code></Error>" };
    got = { path: r.path, body: r.body.toString("utf8"), acl: r.headers["x-amz-acl"], type: r.headers["content-type"], method: r.method };
    return { status: 200 };
  };
  try {
    for (let i = 0; i < ctx.n(120, 1500); i++) {
      const bucket = "b-" + rng.word(3, 8), key = rng.pick(["a.json", "dir/x y.json", "ä/€.txt", rng.word(3, 9)]), body = bodies(rng) || "x";
      const acl = rng.pick([undefined, "public-read", "private"]), type = rng.pick([undefined, "text/html", "application/json"]);
      fault = rng.pick([undefined, undefined, 403, 404, 500]);
      got = undefined;
      globalThis.__vlog.lines.length = 0;
      const r = await ctx.attempt(() => s3runtime.uploadToS3(s3, bucket, body, key, acl, type));
      const logged = globalThis.__vlog.lines.join("");
      globalThis.__vlog.lines.length = 0;
      const w = () => ({ bucket, key, acl, type, fault, got, ok: r.ok });
      ctx.observe("uploads");
      ctx.case(["upload", bucket, key, body, acl, type, fault], true);
      if (fault) {
        ctx.expect(!r.ok, "upload-swallowed", "a failed upload looks like a success to the caller", w);
        ctx.expect(/"ERROR"/.test(logged) && logged.includes(bucket), "upload-log", "a failed upload is not logged", w);
      } else {
        ctx.expect(r.ok, "upload-failed", "an upload failed for no reason", () => ({ ...w(), error: r.error?.stack }));
        ctx.equal([got?.method, got?.path, got?.body, got?.acl], ["PUT", `/${bucket}/${key}`, body, acl], "upload-object", "the stored object is not what was asked for", w);
        if (type) ctx.expect(got?.type === type, "upload-type", "the stored object has another content type", w);
      }
    }
  } finally {
    s3.destroy();
    await aws.stop();
  }
}

function names(ctx, rng) {
  const seen = new Map();
  for (let i = 0; i < ctx.n(3000, 40000); i++) {
    const raw = rng.pick([() => rng.array(rng.int(3, 120), () => rng.pick("abcXYZ019-_. äÖ/".split(""))).join(""), () => "a" + "-".repeat(rng.int(0, 80)) + "b" + rng.word(0, 60), () => "A".repeat(rng.int(50, 80)) + rng.pick(["", "-", "_"]) + rng.word(0, 4)])();
    const n = sanitizeS3BucketName(raw);
    ctx.observe("bucket-names");
    if (!/[a-z0-9]/i.test(raw)) continue;
    ctx.expect(n.length <= 63 && /^[a-z0-9]([a-z0-9-]*[a-z0-9])?$/.test(n), "name-valid", "a bucket name is not valid", () => ({ raw, n }));
    ctx.expect(sanitizeS3BucketName(raw) === n, "name-stable", "a bucket name is not stable", () => ({ raw, n }));
    const plain = raw.toLowerCase().replace(/[^a-z0-9]+/g, "-").replace(/^-|-$/g, "");
    if (plain.length <= 63) ctx.expect(n === plain, "name-plain", "a short name is changed more than needed", () => ({ raw, n, plain }));
    else {
      ctx.expect(!seen.has(n) || seen.get(n) === raw, "name-collision", "two long names give the same bucket", () => ({ raw, other: seen.get(n), n }));
      seen.set(n, raw);
    }
  }
}

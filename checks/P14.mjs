import { lib } from "../harness/hooks.mjs";
import { build, inScratch, cdk, cdkMod, newApp, baseConfig, DigitrafficStack } from "../harness/infra.mjs";

const { StackCheckingAspect } = await lib("aws/infra/stack/stack-checking-aspect.ts");
const lambda = cdkMod("aws-lambda");
const s3 = cdkMod("aws-s3");
const sqs = cdkMod("aws-sqs");
const kms = cdkMod("aws-kms");
const apigw = cdkMod("aws-apigateway");
const logs = cdkMod("aws-logs");

const ALLOWED = ["nodejs24.x", "nodejs22.x", "python3.12", "python3.13"];

export default {
  id: "P14",
  rule: "A case is one random stack (functions, buckets, queues, API resources and methods, log retention, tags, names, production flag, whitelist) synthesized with the checks on; the messages of every resource are compared with an independent count of its faults; non-trivial when the stack contains resources.",
  assumptions: ["Only unambiguous kebab-case and snake_case names are judged (no digits, no names that consist of a path parameter only)."],
  async run(ctx) {
    ctx.require("stacks", 60);
    ctx.require("faults", 200);
    ctx.require("clean-resources", 100);
    ctx.require("whitelisted", 30);
    await inScratch(() => {
      for (let i = 0; i < ctx.n(140, 1200); i++) one(ctx, ctx.rng, i);
    });
  },
};

function one(ctx, rng, i) {
  const own = rng.bool(0.75); // a digitraffic stack, or a plain stack with the checks added by hand
  const shortName = rng.pick(["Tst", "MyApp"]);
  const production = rng.bool();
  const id = rng.pick(["App", "AppTest", "TstApp", "AppProd", "PrdApp", "Other"]) + i;
  const tagged = rng.bool(0.8);
  const exp = []; // [path, level, suffix-independent description]
  const app = newApp();
  const cfg = baseConfig({ shortName, production });
  cfg.stackProps = { ...cfg.stackProps, tags: tagged ? { Solution: "s" } : rng.bool() ? {} : { Other: "x" } };
  const nodes = [];
  // choose the whitelist first: it refers to node ids by name
  const wl = rng.bool(0.5) ? rng.subset(["Fn1", "Fn2/.*", "Bucket1", "Queue[12]", "FUNCTION_TIMEOUT$", "nothing-matches", `^${id}/Res`, "RESERVED", "zzz", "fn[12]", "bucket", "Default/foo/", "Default/fooBar/GET", "fooBar", "RESOURCE_PATH$", "json"]) : undefined;
  const stack = own ? new DigitrafficStack(app, id, { ...cfg, whitelistedResources: wl }) : new cdk.Stack(app, id, cfg.stackProps);
  if (!own) cdk.Aspects.of(stack).add(new StackCheckingAspect(shortName, wl));
  const fault = (path, key, error) => exp.push({ path, key, error });

  if (own) {
    if (/Test|Tst/.test(id) && production) fault(id, "STACK_NAME", true);
    if (/Prod|Prd/.test(id) && !production) fault(id, "STACK_NAME", true);
  }
  if (!tagged) fault(id, "TAG_SOLUTION", true);

  const nf = rng.int(0, 3);
  for (let k = 1; k <= nf; k++) {
    const l1 = rng.bool(0.5);
    const p = { runtime: rng.pick([...ALLOWED, ...ALLOWED, "nodejs18.x", "python3.9", "java21", "nodejs20.x"]), reserved: rng.pick([undefined, 1, 50, 100, 101, 1000]), timeout: rng.pick([undefined, 1, 60, 900]), memory: rng.pick([undefined, 128, 1024]), name: rng.pick([undefined, shortName + "-Fn", shortName, "Other-Fn", "x" + shortName]) };
    // an unnamed L2 function has an unresolved token as its name; whether that is "a wrong name" is not claimed
    if (!l1) p.name ??= shortName + "-Fn";
    let path = `${id}/Fn${k}`;
    if (l1) {
      new lambda.CfnFunction(stack, `Fn${k}`, { code: { zipFile: "x" }, role: "arn:aws:iam::1:role/x", handler: "i.h", runtime: p.runtime, reservedConcurrentExecutions: p.reserved, timeout: p.timeout, memorySize: p.memory, functionName: p.name });
    } else {
      new lambda.Function(stack, `Fn${k}`, { code: lambda.Code.fromInline("x"), handler: "index.h", runtime: new lambda.Runtime(p.runtime, lambda.RuntimeFamily.NODEJS, { supportsInlineCode: true }), reservedConcurrentExecutions: p.reserved, timeout: p.timeout ? cdk.Duration.seconds(p.timeout) : undefined, memorySize: p.memory, functionName: p.name });
      path += "/Resource";
    }
    nodes.push(path);
    if (!p.reserved || p.reserved > 100) fault(path, "RESERVED_CONCURRENT_CONCURRENCY", true);
    if (!p.timeout) fault(path, "FUNCTION_TIMEOUT", true);
    if (!p.memory) fault(path, "FUNCTION_MEMORY_SIZE", true);
    if (!ALLOWED.includes(p.runtime)) fault(path, "FUNCTION_RUNTIME", true);
    if (p.name && !p.name.startsWith(shortName)) fault(path, "FUNCTION_NAME", true);
  }
  for (let k = 1; k <= rng.int(0, 3); k++) {
    const b = rng.pick([undefined, "all", { blockPublicAcls: rng.bool(0.7), blockPublicPolicy: rng.bool(0.7), ignorePublicAcls: rng.bool(0.7), restrictPublicBuckets: rng.bool(0.7) }]);
    const full = { blockPublicAcls: true, blockPublicPolicy: true, ignorePublicAcls: true, restrictPublicBuckets: true };
    const l1 = rng.bool();
    const c = b === "all" ? full : b;
    let path = `${id}/Bucket${k}`;
    if (l1) new s3.CfnBucket(stack, `Bucket${k}`, { publicAccessBlockConfiguration: c });
    else { new s3.Bucket(stack, `Bucket${k}`, { blockPublicAccess: c ? new s3.BlockPublicAccess(c) : undefined }); path += "/Resource"; }
    nodes.push(path);
    if (c && !Object.values(c).every(Boolean)) fault(path, "BUCKET_PUBLICITY", true);
  }
  for (let k = 1; k <= rng.int(0, 3); k++) {
    const key = rng.pick([undefined, "alias/aws/sqs", "some-key"]);
    const path = `${id}/Queue${k}`;
    const enc = rng.bool();
    if (enc) new sqs.CfnQueue(stack, `Queue${k}`, { kmsMasterKeyId: key });
    else new sqs.Queue(stack, `Queue${k}`, key === undefined ? {} : key === "some-key" ? { encryption: sqs.QueueEncryption.KMS, encryptionMasterKey: kms.Key.fromKeyArn(stack, `Key${k}`, "arn:aws:kms:eu-west-1:1:key/x") } : { encryption: sqs.QueueEncryption.KMS_MANAGED });
    nodes.push(enc ? path : path + "/Resource");
    if (!key) fault(enc ? path : path + "/Resource", "QUEUE_ENCRYPTION", true);
  }
  if (rng.bool(0.6)) {
    const api = new apigw.RestApi(stack, "Api", { deploy: true });
    const parts = rng.shuffle(["foo", "foo-bar", "fooBar", "Foo", "foo_bar", "FOO", "data.json", "fooBar.json", "foo-bar-baz"]).slice(0, rng.int(1, 4));
    for (const part of parts) {
      const r = api.root.addResource(part);
      const path = `${id}/Api/Default/${part}/Resource`;
      nodes.push(path);
      if (["fooBar", "Foo", "foo_bar", "FOO", "fooBar.json"].includes(part)) fault(path, "RESOURCE_PATH", false);
      const qs = rng.subset(["foo", "foo_bar", "fooBar", "foo-bar", "Foo"]);
      const hd = rng.subset(["X-Header", "fooBar"]);
      const rp = Object.fromEntries([...qs.map((q) => [`integration.request.querystring.${q}`, "'x'"]), ...hd.map((q) => [`integration.request.header.${q}`, "'x'"])]);
      r.addMethod("GET", new apigw.MockIntegration({ requestParameters: rng.bool(0.3) ? undefined : rp, requestTemplates: { "application/json": "{}" } }));
      const given = r.node.findChild("GET").node.defaultChild.integration.requestParameters;
      if (given) for (const q of qs) if (["fooBar", "foo-bar", "Foo"].includes(q)) fault(`${id}/Api/Default/${part}/GET/Resource`, q, true);
      nodes.push(`${id}/Api/Default/${part}/GET/Resource`);
    }
    // a default deployment's root has a method too
  }
  if (rng.bool(0.3)) {
    const ret = rng.pick([logs.RetentionDays.ONE_DAY, logs.RetentionDays.ONE_YEAR, logs.RetentionDays.INFINITE]);
    new logs.LogRetention(stack, "Ret", { logGroupName: "/x", retention: ret });
    if (ret === logs.RetentionDays.INFINITE) fault(`${id}/Ret`, "LOG_GROUP_RETENTION", true);
    nodes.push(`${id}/Ret`);
  }
  const r = ctx.attemptSync(() => app.synth({ force: true }).getStackByName(stack.stackName));
  const w0 = () => ({ id, own, production, tagged, wl, exp });
  if (!ctx.expect(r.ok, "synth", "a stack cannot be synthesized with the checks on", () => ({ ...w0(), error: r.error?.stack }))) return;
  // the log retention provider function is CDK's own and not of interest
  const msgs = r.value.messages.filter((m) => !/LogRetention[0-9a-f]{8,}/.test(m.id) && !/\/LogRetention/.test(m.id)).filter((m) => !/Tst \d/.test(m.id));
  const mine = msgs.filter((m) => (m.level === "error" || m.level === "warning") && nodes.concat([id]).some((n) => m.id === "/" + n)).map((m) => [m.id.slice(1), m.level, String(m.entry.data)]).filter(([, , t]) => !/\[ack: @aws-cdk/.test(t));
  const expMap = new Map();
  const res = (wl ?? []).map((x) => new RegExp(x));
  for (const f of exp) {
    const full = `${f.path}/${f.key}`;
    const white = res.some((x) => x.test(full));
    if (white) ctx.observe("whitelisted");
    const level = f.error ? (white ? "warning" : "error") : white ? undefined : "warning";
    ctx.observe("faults");
    if (!level) continue;
    const k = f.path + "|" + level;
    expMap.set(k, (expMap.get(k) ?? 0) + 1);
  }
  const gotMap = new Map();
  for (const [p, l] of mine) gotMap.set(p + "|" + l, (gotMap.get(p + "|" + l) ?? 0) + 1);
  const faulty = new Set(exp.map((f) => f.path));
  ctx.observe("clean-resources", nodes.filter((n) => !faulty.has(n)).length);
  ctx.observe("stacks");
  ctx.case([id.replace(/\d+$/, ""), own, production, tagged, wl, exp], nodes.length > 0, { id, wl, faults: exp.length });
  for (const k of new Set([...expMap.keys(), ...gotMap.keys()])) {
    const e = expMap.get(k) ?? 0, g = gotMap.get(k) ?? 0;
    const [path, level] = k.split("|");
    const w = () => ({ ...w0(), resource: path, level, messages: mine.filter((m) => m[0] === path) });
    ctx.expect(g >= e, `${level}-missing`, `a faulty resource is not reported (${level})`, w);
    ctx.expect(g <= e, `${level}-extra`, `a resource is reported more often than it has faults (${level})`, w);
  }
}
void build;

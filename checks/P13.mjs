import { lib } from "../harness/hooks.mjs";
import { build, inScratch, makeLambdaAsset, cdk, cdkMod } from "../harness/infra.mjs";
import { target, text, iamMatch } from "../harness/cfn.mjs";

const { FunctionBuilder } = await lib("aws/infra/stack/dt-function.ts");
const { DtFunctionAlarms } = await lib("aws/infra/stack/dt-function-alarms.ts");
const { MonitoredFunction, MonitoredDBFunction } = await lib("aws/infra/stack/monitoredfunction.ts");
const { Scheduler } = await lib("aws/infra/scheduler.ts");
const { createSubscription, DigitrafficLogSubscriptions } = await lib("aws/infra/stack/subscription.ts");
const { createLambdaLogGroup } = await lib("aws/infra/stack/lambda-log-group.ts");
const lambda = cdkMod("aws-lambda");
const iam = cdkMod("aws-iam");
const ec2 = cdkMod("aws-ec2");
const cw = cdkMod("aws-cloudwatch");
const logs = cdkMod("aws-logs");
const { Duration } = cdk;

const NAMES = ["update-things", "get-x", "process-queue", "a", "foo-bar-baz", "dump"];
const pascal = (n) => n.split("-").map((x) => x[0].toUpperCase() + x.slice(1)).join("");
const KINDS = ["duration", "warning", "errors", "throttles"];

/** would the alarm be in ALARM state for this datapoint */
function fires(a, v) {
  const t = Number(a.Threshold);
  return { GreaterThanOrEqualToThreshold: v >= t, GreaterThanThreshold: v > t, LessThanThreshold: v < t, LessThanOrEqualToThreshold: v <= t }[a.ComparisonOperator];
}

export default {
  id: "P13",
  rule: "A case is one function defined through the library with random settings (builder or monitored-function APIs, roles, policies, alarms, network, environment), synthesized to CloudFormation and judged by an evaluator of grants, alarms and logging; non-trivial when the function was synthesized.",
  assumptions: ["CloudFormation is what the service does; IAM is evaluated as allow statements of the function's own role."],
  async run(ctx) {
    ctx.require("functions", 100);
    ctx.require("alarms", 200);
    ctx.require("refused", 20);
    ctx.require("schedules", 20);
    ctx.require("db-functions", 20);
    await inScratch(() => {
      makeLambdaAsset(...NAMES, "sub/dir-x");
      for (let i = 0; i < ctx.n(90, 600); i++) stackRun(ctx, ctx.rng);
    });
  },
};

function stackRun(ctx, rng) {
  const hasVpc = rng.bool(0.8);
  const hasSg = rng.bool(0.8);
  const hasSecret = rng.bool(0.85);
  const cfg = {
    shortName: rng.pick(["Tst", "MyApp", "X"]),
    production: rng.bool(),
    trafficType: rng.pick(["Road", "Marine", null]),
    secretId: hasSecret ? "secret-" + rng.word(2, 5) : undefined,
    vpcId: hasVpc ? "vpc-1" : undefined,
    lambdaDbSgId: hasSg ? "sg-db" : undefined,
    logsDestinationArn: rng.bool(0.8) ? "arn:aws:logs:eu-west-1:123456789012:destination:logs" : undefined,
  };
  const wanted = [];
  const scheds = [];
  const subs = [];
  let failed = false;
  const cfn = build((stack) => {
    const names = rng.shuffle([...NAMES]).slice(0, rng.int(1, 4));
    for (const name of names) {
      const kind = rng.pick(["builder", "builder", "builder", "plain", "v2", "db"]);
      const d = { name, kind, fn: `${cfg.shortName}-${pascal(name)}`, alarms: {} };
      let make;
      if (kind === "builder" || kind === "plain") make = () => viaBuilder(ctx, rng, stack, d, cfg, kind);
      else make = () => viaMonitored(ctx, rng, stack, d, cfg, kind);
      const r = ctx.attemptSync(make);
      if (d.mustFail) {
        failed = true;
        ctx.observe("refused");
        ctx.expect(!r.ok, "accepted-" + d.mustFail, "a function definition that must be refused was accepted: " + d.mustFail, () => ({ d, cfg }));
        continue;
      }
      if (!ctx.expect(r.ok, "refused-valid", "a valid function definition was refused", () => ({ d, cfg, error: r.error?.stack }))) continue;
      d.node = r.value;
      wanted.push(d);
      if (rng.bool(0.4)) {
        const rule = "Rule-" + name;
        const [f, arg, rate] = rng.pick([["everyMinute", [], "rate(1 minute)"], ["everyMinutes", [5], "rate(5 minutes)"], ["everyMinutes", [17], "rate(17 minutes)"], ["everyHour", [], "rate(1 hour)"], ["everyDay", [], "rate(1 day)"], ["every", [Duration.hours(6)], "rate(6 hours)"]]);
        const withTarget = rng.bool(0.85);
        Scheduler[f](stack, rule, ...arg, ...(withTarget ? [d.node] : []));
        scheds.push({ rule, rate, d: withTarget ? d : undefined });
      }
      if (rng.bool(0.4)) {
        if (d.node.givenName && rng.bool()) {
          new DigitrafficLogSubscriptions(stack, d.node);
          subs.push({ d, dest: cfg.logsDestinationArn });
        } else {
          const dest = rng.pick([undefined, "arn:aws:logs:eu-west-1:1:destination:other"]);
          const s = createSubscription(d.node, name, dest, stack);
          ctx.expect(!!s === !!dest, "subscription-optional", "a log subscription without destination was created, or the reverse");
          subs.push({ d, dest });
        }
      }
    }
  }, cfg);
  const stackName = cfn.stack.stackName;
  for (const d of wanted) judge(ctx, cfn, d, cfg, stackName);
  const w = () => ({ cfg, scheds: scheds.map((s) => [s.rule, s.rate, s.d?.fn]), rules: cfn.of("AWS::Events::Rule") });
  ctx.expect(failed || cfn.of("AWS::Lambda::Function").length === wanted.length, "functions", "number of functions does not match", w);
  for (const s of scheds) {
    const r = cfn.find("AWS::Events::Rule", (p) => p.Name === s.rule);
    if (!ctx.expect(!!r, "rule", "a scheduled rule is missing", w)) continue;
    ctx.observe("schedules");
    ctx.expect(r[1].Properties.ScheduleExpression === s.rate, "rate", "the schedule is not the one asked for", () => ({ ...w(), got: r[1].Properties.ScheduleExpression }));
    ctx.expect(r[1].Properties.State === "ENABLED", "rule-state", "the schedule is not enabled", w);
    const id = s.d && cfn.find("AWS::Lambda::Function", (p) => p.FunctionName === s.d.fn)?.[0];
    ctx.equal((r[1].Properties.Targets ?? []).map((t) => target(t.Arn)), id ? [id] : [], "rule-target", "the schedule does not invoke the function", w);
    if (id) ctx.expect(cfn.props("AWS::Lambda::Permission").some((p) => p.Principal === "events.amazonaws.com" && target(p.FunctionName) === id && target(p.SourceArn) === r[0]), "rule-permission", "the schedule may not invoke the function", w);
  }
  const filters = cfn.props("AWS::Logs::SubscriptionFilter");
  ctx.expect(filters.length === subs.filter((s) => s.dest).length, "subscriptions", "number of log subscriptions does not match", () => ({ filters, subs: subs.map((s) => [s.d.fn, s.dest]) }));
  for (const s of subs) {
    if (!s.dest) continue;
    const lg = logGroupOf(cfn, s.d);
    ctx.expect(filters.some((f) => f.DestinationArn === s.dest && f.FilterPattern === "" && target(f.LogGroupName) === lg?.[0]), "subscription", "a log subscription does not deliver the function's log group to the destination", () => ({ filters, fn: s.d.fn, lg }));
  }
}

const logGroupOf = (cfn, d) => cfn.find("AWS::Logs::LogGroup", (p) => text(p.LogGroupName) === `/${d.shortName}/lambda/${d.fn}`);

function randomAlarm(rng) {
  return { threshold: rng.maybe(() => rng.int(1, 500)), evaluationPeriods: rng.int(2, 5), datapointsToAlarm: rng.int(1, 2), comparisonOperator: rng.pick([cw.ComparisonOperator.GREATER_THAN_THRESHOLD, cw.ComparisonOperator.GREATER_THAN_OR_EQUAL_TO_THRESHOLD]) };
}

function viaBuilder(ctx, rng, stack, d, cfg, kind) {
  let b = kind === "plain" ? FunctionBuilder.plain(stack, d.name) : FunctionBuilder.create(stack, d.name);
  Object.assign(d, { shortName: cfg.shortName, timeout: 60, memory: 128, reserved: 2, runtime: "nodejs24.x", arch: "arm64", handler: d.name + ".handler", env: {}, db: kind !== "plain", secret: kind !== "plain", sgs: [], policies: [], vpc: !!cfg.vpcId, description: undefined, layers: 0, production: cfg.production });
  for (const k of KINDS) d.alarms[k] = {};
  const ops = rng.shuffle(["timeout", "memory", "reserved", "runtime", "arch", "env", "env2", "nodb", "nosecret", "sg", "sg2", "policy", "actions", "actions2", "alarms", "handler", "asset", "inline", "desc", "layers", "role", "wild"]);
  for (const op of ops) {
    if (op === "wild" ? !rng.bool(0.03) : !rng.bool(0.3)) continue;
    let r;
    if (op === "timeout") { d.timeout = rng.int(1, 900); r = b.withTimeout(Duration.seconds(d.timeout)); }
    if (op === "memory") { d.memory = rng.int(128, 3000); r = b.withMemorySize(d.memory); }
    if (op === "reserved") { d.reserved = rng.int(1, 90); r = b.withReservedConcurrentExecutions(d.reserved); }
    if (op === "runtime") { d.runtime = "nodejs22.x"; r = b.withRuntime(lambda.Runtime.NODEJS_22_X); }
    if (op === "arch") { d.arch = "x86_64"; r = b.withArchitecture(lambda.Architecture.X86_64); }
    if (op === "env") { const e = { A: rng.word(1, 5), B: rng.word(1, 5) }; Object.assign(d.env, e); r = b.withEnvironment(e); }
    if (op === "env2") { const e = { B: rng.word(1, 5), ...(rng.bool(0.3) ? { SECRET_ID: "other", DB_APPLICATION: "mine" } : {}) }; Object.assign(d.env, e); r = b.withEnvironment(e); }
    if (op === "nodb") { d.db = false; r = b.withoutDatabaseAccess(); }
    if (op === "nosecret") { d.secret = false; r = b.withoutSecretAccess(); }
    if (op === "sg" || op === "sg2") {
      if (!cfg.vpcId) continue;
      const ids = rng.array(rng.int(1, 3), (i) => `sg-${op}-${i}`);
      d.sgs.push(...ids);
      r = b.withSecurityGroup(...ids.map((id) => ec2.SecurityGroup.fromSecurityGroupId(stack, `Sg${d.name}${id}`, id)));
    }
    if (op === "policy") { d.policies.push([["s3:GetObject"], ["arn:aws:s3:::bucket-" + d.name + "/*"]]); r = b.withRolePolicies(new iam.PolicyStatement({ actions: ["s3:GetObject"], resources: [`arn:aws:s3:::bucket-${d.name}/*`] })); }
    if (op === "actions" || op === "actions2") { const a = rng.pick(["sqs:SendMessage", "kms:Decrypt", "ses:SendEmail", "dynamodb:PutItem"]); d.policies.push([[a], ["*"]]); r = b.withAllowedActions(a, ...(op === "actions" ? ["sqs:GetQueueUrl"] : [])); if (op === "actions") d.policies.push([["sqs:GetQueueUrl"], ["*"]]); }
    if (op === "alarms") {
      const al = new DtFunctionAlarms();
      for (const [k, m] of [["duration", "withDurationAlarm"], ["warning", "withDurationWarning"], ["errors", "withErrorAlarm"], ["throttles", "withThrottleAlarm"]]) {
        if (rng.bool(0.5)) continue;
        const p = rng.maybe(() => randomAlarm(rng));
        al[m](p);
        d.alarms[k] = p;
      }
      r = b.withAlarms(al);
    }
    if (op === "handler") { d.handler = "idx.main"; r = b.withHandler("idx", "main"); }
    if (op === "asset") { d.handler = "dir-x.handler"; r = b.withAssetCode("sub/dir-x"); }
    if (op === "inline") r = b.withCode(lambda.Code.fromInline("x"));
    if (op === "desc") { d.description = rng.word(3, 10); r = b.withDescription(d.description); }
    if (op === "layers") { d.layers = 1; r = b.withLayers(lambda.LayerVersion.fromLayerVersionArn(stack, "L" + d.name, "arn:aws:lambda:eu-west-1:123456789012:layer:x:1")); }
    if (op === "role") { r = b.withRole(new iam.Role(stack, "Role" + d.name, { roleName: "role-" + d.name, assumedBy: new iam.ServicePrincipal("lambda.amazonaws.com") })); d.role = true; }
    if (op === "wild") { r = b.withAllowedActions("*"); d.mustFail = "wildcard action"; }
    ctx.expect(r === b, "fluent", "a builder call does not return the builder: " + op);
  }
  if (d.db && !cfg.lambdaDbSgId) d.mustFail = "database access without a security group";
  if (d.secret && !cfg.secretId) d.mustFail ??= "secret access without a secret";
  if (d.db && !cfg.vpcId) d.mustFail ??= "security group without a network";
  d.expEnv = { ...(d.secret ? { SECRET_ID: cfg.secretId } : {}), ...(d.db ? { DB_APPLICATION: cfg.shortName } : {}), ...d.env };
  d.expSgs = [...d.sgs, ...(d.db ? ["sg-db"] : [])];
  return b.build();
}

function viaMonitored(ctx, rng, stack, d, cfg, kind) {
  Object.assign(d, { shortName: cfg.shortName, timeout: 60, memory: 128, reserved: 2, runtime: "nodejs24.x", arch: "arm64", handler: d.name + ".handler", policies: [], vpc: !!cfg.vpcId, db: !!cfg.lambdaDbSgId, secret: kind === "db", layers: 0, production: cfg.production });
  const p = {};
  if (rng.bool(0.3)) p.timeout = d.timeout = rng.int(1, 900);
  if (rng.bool(0.3)) p.memorySize = d.memory = rng.int(128, 3000);
  if (rng.bool(0.3)) p.reservedConcurrentExecutions = d.reserved = rng.int(1, 90);
  if (rng.bool(0.2)) { p.runtime = lambda.Runtime.NODEJS_22_X; d.runtime = "nodejs22.x"; }
  if (rng.bool(0.2)) { p.architecture = lambda.Architecture.X86_64; d.arch = "x86_64"; }
  if (rng.bool(0.2)) p.functionName = d.fn = cfg.shortName + "-Own" + pascal(d.name);
  for (const [k, pk] of [["duration", "durationAlarmProps"], ["warning", "durationWarningProps"], ["errors", "errorAlarmProps"], ["throttles", "throttleAlarmProps"]]) {
    d.alarms[k] = {};
    if (rng.bool(0.6)) continue;
    const a = rng.pick([{ create: false }, { create: true }, { create: true, ...randomAlarm(rng) }, { create: true, threshold: rng.int(1, 50) }]);
    p[pk] = a;
    d.alarms[k] = a.create ? a : undefined;
  }
  const env = rng.pick([undefined, { A: "1" }, { SECRET_ID: "zz", DB_APPLICATION: "q" }]);
  d.vpcSg = true;
  d.expSgs = cfg.lambdaDbSgId ? ["sg-db"] : undefined;
  if (cfg.lambdaDbSgId && !cfg.vpcId) d.mustFail = "security group without a network";
  let params = Object.keys(p).length || rng.bool() ? p : undefined;
  if (rng.bool(0.12)) {
    params = MonitoredFunction.DISABLE_ALARMS;
    Object.assign(d, { timeout: 60, memory: 128, reserved: 2, runtime: "nodejs24.x", arch: "arm64", fn: `${cfg.shortName}-${pascal(d.name)}`, alarms: {} });
    if (cfg.production) d.mustFail ??= "all alarms disabled in production";
  }
  if (kind === "v2") {
    d.expEnv = env ?? {};
    return MonitoredFunction.createV2(stack, d.name, env ?? {}, params);
  }
  ctx.observe("db-functions");
  if (!cfg.secretId) d.mustFail ??= "secret access without a secret";
  d.expEnv = env ?? { ...(cfg.secretId ? { SECRET_ID: cfg.secretId } : {}), DB_APPLICATION: cfg.shortName };
  return MonitoredDBFunction.create(stack, d.name, env, params);
}

function judge(ctx, cfn, d, cfg, stackName) {
  const f = cfn.find("AWS::Lambda::Function", (p) => p.FunctionName === d.fn);
  const { node, ...dd } = d;
  const w = () => ({ asked: dd, cfg, got: f?.[1]?.Properties });
  if (!ctx.expect(!!f, "name", "there is no function with the expected name", () => ({ asked: dd, got: cfn.props("AWS::Lambda::Function").map((p) => p.FunctionName) }))) return;
  const [id, { Properties: p }] = f;
  ctx.observe("functions");
  ctx.case([{ ...dd }, cfg]);
  ctx.equal({ timeout: p.Timeout, memory: p.MemorySize, reserved: p.ReservedConcurrentExecutions, runtime: p.Runtime, arch: p.Architectures?.[0], handler: p.Handler, description: p.Description, layers: p.Layers?.length ?? 0 }, { timeout: d.timeout, memory: d.memory, reserved: d.reserved, runtime: d.runtime, arch: d.arch, handler: p.Handler.startsWith("index.") ? p.Handler : d.handler, description: d.description, layers: d.layers }, "settings", "the function's settings are not the ones asked for", w);
  ctx.equal({ ...p.Environment?.Variables }, d.expEnv, "environment", "the function's environment is not the one asked for", w);
  // network
  if (d.vpc) {
    ctx.equal(p.VpcConfig?.SubnetIds, ["subnet-a", "subnet-b"], "subnets", "the function is not in the private subnets", w);
    const sgs = (p.VpcConfig?.SecurityGroupIds ?? []).map(text);
    if (d.expSgs?.length) ctx.equal([...sgs].sort(), [...d.expSgs].sort(), "security-groups", "the function's security groups are not the ones asked for", w);
    else ctx.expect(!sgs.includes("sg-db"), "db-access", "the function can reach the database although it was not asked for", w);
  } else ctx.expect(!p.VpcConfig, "vpc", "the function is in a network that is not configured", w);
  // logging
  ctx.expect(p.LoggingConfig?.LogFormat === "JSON", "log-format", "the function does not log JSON", w);
  ctx.expect(p.LoggingConfig?.ApplicationLogLevel === "DEBUG" && p.LoggingConfig?.SystemLogLevel === "INFO", "log-level", "log levels are not the default ones", w);
  const lg = logGroupOf(cfn, d);
  ctx.expect(!!lg && target(p.LoggingConfig?.LogGroup) === lg[0], "log-group", "the function does not log to its own log group", () => ({ ...w(), groups: cfn.props("AWS::Logs::LogGroup") }));
  ctx.expect(lg?.[1].Properties.RetentionInDays === 365, "log-retention", "the function's logs are not kept for a year", () => lg);
  // grants
  const role = target(p.Role);
  const stmts = cfn.props("AWS::IAM::Policy").filter((x) => x.Roles.some((r) => target(r) === role)).flatMap((x) => x.PolicyDocument.Statement).concat((cfn.byId(role)?.Properties.Policies ?? []).flatMap((x) => x.PolicyDocument.Statement));
  const norm = stmts.map((s) => ({ effect: s.Effect, actions: [].concat(s.Action), resources: [].concat(s.Resource).map(text) }));
  const allowed = (a, r) => norm.some((s) => s.effect === "Allow" && s.actions.some((x) => iamMatch(x, a)) && s.resources.some((x) => x === r || iamMatch(x, r)));
  const ww = () => ({ asked: dd, cfg, statements: norm });
  const secretArn = cfg.secretId && norm.flatMap((s) => s.resources).find((r) => r.includes(":secret:" + cfg.secretId));
  const canRead = !!secretArn && allowed("secretsmanager:GetSecretValue", secretArn);
  ctx.expect(canRead === !!d.secret, d.secret ? "secret-grant" : "secret-extra", d.secret ? "the function may not read the secret it needs" : "the function may read the secret although that was not asked for", ww);
  for (const [as, rs] of d.policies) for (const a of as) for (const r of rs) ctx.expect(allowed(a, r), "policy", "an action asked for is not allowed", ww);
  for (const s of norm) {
    ctx.expect(s.effect === "Allow" && !s.actions.includes("*"), "policy-wild", "the function got an unlimited policy", ww);
    for (const a of s.actions) {
      if (a.startsWith("secretsmanager:") && d.secret) continue;
      ctx.expect(d.policies.some(([as, rs]) => as.includes(a) && s.resources.every((r) => rs.includes(r))), "policy-extra", `the function may do ${a} although that was not asked for`, ww);
    }
  }
  // alarms
  const alarms = cfn.props("AWS::CloudWatch::Alarm").filter((a) => (a.Dimensions ?? []).some((x) => x.Name === "FunctionName" && target(x.Value) === id));
  const prefix = `${d.production ? "" : ""}${cfg.trafficType ?? ""} ${stackName} `.trim();
  const isWarn = (a) => /warning/i.test(text(a.AlarmName));
  const byKind = {
    duration: alarms.filter((a) => a.MetricName === "Duration" && !isWarn(a)),
    warning: alarms.filter((a) => a.MetricName === "Duration" && isWarn(a)),
    errors: alarms.filter((a) => a.MetricName === "Errors"),
    throttles: alarms.filter((a) => a.MetricName === "Throttles"),
  };
  for (const k of KINDS) {
    const ex = d.alarms[k];
    const as = byKind[k];
    const wa = () => ({ kind: k, asked: dd, cfg, alarms });
    if (!ctx.expect(as.length === (ex ? 1 : 0), ex ? "alarm-missing" : "alarm-extra", ex ? "an alarm is missing" : "a disabled alarm exists", wa) || !ex) continue;
    const a = as[0];
    ctx.observe("alarms");
    const ms = d.timeout * 1000;
    const dflt = { duration: ms, warning: 0.85 * ms, errors: 1, throttles: 1 }[k];
    const limit = ex.threshold ?? dflt;
    const gt = ex.comparisonOperator === cw.ComparisonOperator.GREATER_THAN_THRESHOLD;
    const eps = k === "duration" || k === "warning" ? 1e-6 * ms : 1;
    const viaOldDefault = k === "throttles" && d.kind !== "builder" && d.kind !== "plain" && ex.comparisonOperator === undefined && ex.threshold !== undefined;
    if (!viaOldDefault && !(k === "throttles" && ex.threshold === undefined && d.kind !== "builder" && d.kind !== "plain" && ex.comparisonOperator !== undefined)) {
      ctx.expect(fires(a, limit + eps) === true, "alarm-silent", "the alarm stays silent above its limit", wa);
      ctx.expect(fires(a, limit - eps) === false, "alarm-early", "the alarm fires below its limit", wa);
      ctx.expect(Math.abs(limit - Number(a.Threshold)) > eps || fires(a, limit) === !gt, "alarm-at-limit", "the alarm's behaviour at its limit is wrong", wa);
    }
    const stat = a.Statistic ?? a.ExtendedStatistic;
    ctx.expect(k === "duration" || k === "warning" ? stat === "Maximum" : stat === "Sum", "alarm-statistic", "the alarm watches the wrong statistic", wa);
    ctx.expect(a.Namespace === "AWS/Lambda" && a.Period === 300, "alarm-metric", "the alarm watches the wrong metric", wa);
    ctx.expect(a.EvaluationPeriods === (ex.evaluationPeriods ?? 1) && (a.DatapointsToAlarm ?? a.EvaluationPeriods) === (ex.datapointsToAlarm ?? 1), "alarm-periods", "the alarm's periods are not the ones asked for", wa);
    const topics = (a.AlarmActions ?? []).map((x) => cfn.template.Parameters?.[target(x)]?.Default);
    const should = d.production && k !== "warning" ? "/digitraffic/monitoring/alarm-topic" : "/digitraffic/monitoring/warning-topic";
    ctx.equal(topics, [should], "alarm-topic", "the alarm notifies the wrong topic", wa);
    ctx.expect(text(a.AlarmName).startsWith(prefix) && a.ActionsEnabled !== false, "alarm-name", "the alarm's name does not tell traffic type and stack", wa);
  }
  ctx.expect(alarms.length === KINDS.filter((k) => d.alarms[k]).length, "alarms", "there are other alarms than asked for", () => ({ asked: dd, alarms }));
}
void logs; void createLambdaLogGroup;

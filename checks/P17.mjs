import { lib } from "../harness/hooks.mjs";
import { inScratch, cdk, cdkMod, newApp } from "../harness/infra.mjs";
import { Cfn, target, text, iamMatch } from "../harness/cfn.mjs";

const { DbStack, parseClusterIdentifier } = await lib("aws/infra/stacks/db-stack.ts");
const { DbProxyStack } = await lib("aws/infra/stacks/db-proxy-stack.ts");
const { DbDnsStack } = await lib("aws/infra/stacks/db-dns-stack.ts");
const { NetworkStack } = await lib("aws/infra/stacks/network-stack.ts");
const { importVpc, importValue, exportValue, outputName } = await lib("aws/infra/import-util.ts");
const params = await lib("aws/infra/stack/parameters.ts");
const { DigitrafficSecurityRule } = await lib("aws/infra/security-rule.ts");
const { grantOACRights, grantOAIRights } = await lib("aws/infra/bucket-policy.ts");
const ec2 = cdkMod("aws-ec2");
const rds = cdkMod("aws-rds");
const s3 = cdkMod("aws-s3");
const sns = cdkMod("aws-sns");
const iam = cdkMod("aws-iam");
const V = rds.AuroraPostgresEngineVersion;
const VERSIONS = [V.VER_15_4, V.VER_16_4, V.VER_14_9];
const TYPES = ["t4g.medium", "r6g.large", "r6g.xlarge"];

/** deployed stacks of one environment: resolves references across them */
class Account {
  constructor(app, stacks) {
    const asm = app.synth({ force: true });
    this.stacks = Object.fromEntries(stacks.map((s) => [s.stackName, new Cfn(asm.getStackByName(s.stackName).template)]));
    this.exports = {};
    this.ssm = {};
    this.duplicates = [];
    for (const [n, c] of Object.entries(this.stacks)) {
      for (const o of Object.values(c.template.Outputs ?? {})) if (o.Export) {
        if (o.Export.Name in this.exports) this.duplicates.push(o.Export.Name);
        this.exports[o.Export.Name] = [n, o.Value];
      }
      for (const p of c.props("AWS::SSM::Parameter")) {
        if (p.Name in this.ssm) this.duplicates.push(p.Name);
        this.ssm[p.Name] = [n, p.Value];
      }
    }
  }
  /** what a value in a stack stands for once deployed, e.g. "Net:Vpc123.Ref" */
  resolve(stack, v, depth = 0) {
    if (depth > 10) return "<cycle>";
    if (v === null || typeof v !== "object") return String(v);
    if (v["Fn::ImportValue"]) {
      const e = this.exports[this.resolve(stack, v["Fn::ImportValue"], depth + 1)];
      return e ? this.resolve(e[0], e[1], depth + 1) : `<no export ${text(v["Fn::ImportValue"])}>`;
    }
    if (v.Ref) {
      const p = this.stacks[stack].template.Parameters?.[v.Ref];
      if (p) {
        if (!/^AWS::SSM::Parameter::Value/.test(p.Type)) return "<parameter>";
        const e = this.ssm[p.Default];
        return e ? this.resolve(e[0], e[1], depth + 1) : `<no ssm ${p.Default}>`;
      }
      return `${stack}:${v.Ref}`;
    }
    if (v["Fn::GetAtt"]) return `${stack}:${[].concat(v["Fn::GetAtt"]).join(".")}`;
    if (v["Fn::Join"]) return v["Fn::Join"][1].map((x) => this.resolve(stack, x, depth + 1)).join(v["Fn::Join"][0]);
    return text(v);
  }
}

export default {
  id: "P17",
  rule: "A case is one environment (network, database cluster or import, proxy, DNS, a consumer) synthesized together and resolved like the platform would, one security finding run through the synthesized notification rule, one object request judged by a synthesized bucket policy, or one cluster address parsed; non-trivial when something was resolved or judged.",
  assumptions: ["CloudFormation exports, SSM parameters and EventBridge patterns work as documented.", "The exported proxy reader name is documented to be the writer endpoint and is not judged."],
  async run(ctx) {
    ctx.require("environments", 25);
    ctx.require("resolved", 200);
    ctx.require("refused", 10);
    ctx.require("findings", 1000);
    ctx.require("notified", 50);
    ctx.require("object-requests", 300);
    await inScratch(() => {
      for (let i = 0; i < ctx.n(70, 500); i++) environment(ctx, ctx.rng, i);
      for (let i = 0; i < ctx.n(6, 40); i++) securityRule(ctx, ctx.rng, i);
      for (let i = 0; i < ctx.n(20, 200); i++) bucket(ctx, ctx.rng, i);
    });
    parse(ctx, ctx.rng);
  },
};

function environment(ctx, rng, i) {
  const app = newApp();
  const env = { region: "eu-west-1", account: "123456789012" };
  const azs = rng.shuffle(["eu-west-1a", "eu-west-1b", "eu-west-1c"]);
  app.node.setContext("availability-zones:account=123456789012:region=eu-west-1", azs);
  const name = rng.pick(["road-test", "marine-prod", "x"]) + i;
  const isc = { env, environmentName: name };
  const tgw = rng.bool(0.4) ? "tgw-1" : undefined;
  const cidr = rng.pick(["10.1.0.0/16", "10.20.0.0/20"]);
  const mode = rng.pick(["cluster", "cluster", "import", "both", "none", "nogroups", "badimport"]);
  const instance = () => ({ instanceType: new ec2.InstanceType(rng.pick(TYPES)), isFromLegacyInstanceProps: rng.pick([undefined, true, false]) });
  const c = { name, tgw, cidr, mode, azs, versions: mode === "nogroups" ? [] : rng.subset(VERSIONS).length ? rng.shuffle(VERSIONS).slice(0, rng.int(1, 3)) : [VERSIONS[0]], workmem: rng.pick([undefined, 1024, 999999, 0]), encrypted: rng.pick([undefined, true, false]), snapshot: rng.bool(0.3) ? "snap-1" : undefined, writer: instance(), readers: rng.array(rng.int(0, 3), instance), ownVpc: rng.bool(0.3), proxyName: rng.pick([undefined, "MyProxy"]) };
  const view = () => ({ ...c, versions: c.versions.map((v) => v.auroraPostgresFullVersion), writer: c.writer.instanceType.toString(), readers: c.readers.map((r) => r.instanceType.toString()) });
  const net = new NetworkStack(app, "Net", isc, { vpcName: "TheVpc", cidr, transitGatewayId: tgw });
  const imported = { clusterReadEndpoint: `${name}-db.cluster-ro-abc.eu-west-1.rds.amazonaws.com`, clusterWriteEndpoint: mode === "badimport" ? "some.other.host" : `${name}-db.cluster-abc.eu-west-1.rds.amazonaws.com` };
  const bad = ["both", "none", "nogroups", "badimport"].includes(mode);
  const r = ctx.attemptSync(() => new DbStack(app, "Db", isc, {
    secretArn: "arn:aws:secretsmanager:eu-west-1:123456789012:secret:db-AbCdEf",
    customParameterGroups: c.versions,
    ...(c.workmem === undefined ? {} : { workmem: c.workmem }),
    ...(c.encrypted === undefined ? {} : { storageEncrypted: c.encrypted }),
    ...(c.ownVpc ? { vpc: net.vpc } : {}),
    ...(["cluster", "both", "nogroups"].includes(mode) ? { cluster: { securityGroupId: "sg-db", dbVersion: VERSIONS[0], writer: c.writer, readers: c.readers, snapshotIdentifier: c.snapshot } } : {}),
    ...(["import", "both", "badimport"].includes(mode) ? { clusterImport: imported } : {}),
  }));
  if (bad) {
    ctx.observe("refused");
    ctx.case([mode, "refused"], true);
    ctx.expect(!r.ok, "accepted-" + mode, "a contradictory database configuration was accepted", view);
    return;
  }
  if (!ctx.expect(r.ok, "refused-valid", "a valid database configuration was refused", () => ({ ...view(), error: r.error?.stack }))) return;
  const db = r.value;
  const emptyId = ctx.attemptSync(() => new DbProxyStack(app, "Bad", isc, { secretArn: "arn:aws:secretsmanager:eu-west-1:1:secret:db-AbCdEf", securityGroupId: "sg-p", clusterIdentifier: "" }));
  ctx.expect(!emptyId.ok, "proxy-empty", "a proxy without a cluster was accepted");
  app.node.tryRemoveChild("Bad");
  const proxy = new DbProxyStack(app, "Proxy", isc, { secretArn: "arn:aws:secretsmanager:eu-west-1:123456789012:secret:proxy-AbCdEf", securityGroupId: "sg-proxy", clusterIdentifier: mode === "import" ? db.clusterIdentifier : "the-cluster", ...(c.proxyName ? { name: c.proxyName } : {}) });
  const dns = new DbDnsStack(app, "Dns", isc);
  const user = new cdk.Stack(app, "User", { env });
  const vpc = importVpc(user, name);
  const own = rng.pick(["Thing", "digitraffic-x"]);
  exportValue(net, name, own, "own-value");
  new cdk.CfnOutput(user, "O1", { value: vpc.vpcId });
  new cdk.CfnOutput(user, "O2", { value: cdk.Fn.join(",", vpc.privateSubnets.map((s) => s.subnetId)) });
  new cdk.CfnOutput(user, "O3", { value: importValue(name, own) });
  for (const k of ["cluster.reader", "cluster.writer", "cluster.identifier", "proxy.reader", "proxy.writer"]) new cdk.CfnOutput(user, "P" + k.replace(".", ""), { value: params.getParameterValue(user, k) });
  const acc = new Account(app, [net, db, proxy, dns, user]);
  ctx.observe("environments");
  ctx.case(view(), true);
  const w = (x) => () => ({ ...view(), ...x });
  const S = acc.stacks;
  const out = (k) => { ctx.observe("resolved"); return acc.resolve("User", S.User.template.Outputs[k].Value); };
  ctx.equal(acc.duplicates, [], "duplicate", "two stacks export the same name", w());
  ctx.expect(outputName(name, own) in acc.exports, "export-name", "an exported value does not have its name", w({ exports: Object.keys(acc.exports) }));
  // network
  const vpcId = S.Net.of("AWS::EC2::VPC")[0]?.[0];
  const V0 = S.Net.byId(vpcId)?.Properties ?? {};
  ctx.expect(V0.CidrBlock === cidr && V0.EnableDnsHostnames === true && V0.EnableDnsSupport === true && (V0.Tags ?? []).some((t) => t.Key === "Name" && t.Value === "TheVpc"), "vpc", "the network is not the one asked for", w({ V0 }));
  const subs = S.Net.of("AWS::EC2::Subnet");
  const isPublic = ([, s]) => s.Properties.MapPublicIpOnLaunch === true;
  const pub = subs.filter(isPublic), priv = subs.filter((s) => !isPublic(s));
  const zones = (l) => l.map(([, s]) => s.Properties.AvailabilityZone).sort();
  ctx.equal([zones(pub), zones(priv)], [["eu-west-1a", "eu-west-1b"], ["eu-west-1a", "eu-west-1b"]], "subnets", "the network does not have one public and one private subnet in each of the first two zones", w());
  const nat = S.Net.of("AWS::EC2::NatGateway");
  const routes = S.Net.props("AWS::EC2::Route");
  for (const [sid] of priv) {
    const table = S.Net.props("AWS::EC2::SubnetRouteTableAssociation").find((a) => target(a.SubnetId) === sid);
    const def = routes.filter((x) => target(x.RouteTableId) === target(table?.RouteTableId) && x.DestinationCidrBlock === "0.0.0.0/0");
    ctx.expect(def.length === 1 && (tgw ? def[0].TransitGatewayId === tgw : nat.some(([n]) => target(def[0].NatGatewayId) === n)), "egress", "a private subnet's traffic does not leave by the configured way", w({ def }));
    ctx.expect(!def.some((x) => x.GatewayId), "private", "a private subnet is routed straight to the internet", w({ def }));
  }
  ctx.expect(nat.length === (tgw ? 0 : 2), "nat", "number of NAT gateways is not as documented", w({ nat: nat.length }));
  ctx.equal(out("O1"), `Net:${vpcId}`, "import-vpc", "an imported network is not the created one", w());
  const bySubnet = priv.sort((a, b) => (a[1].Properties.AvailabilityZone < b[1].Properties.AvailabilityZone ? -1 : 1)).map(([s]) => `Net:${s}`);
  ctx.equal(out("O2").split(","), bySubnet, "import-subnets", "imported private subnets are not the created private subnets", w());
  ctx.expect(out("O3") === "own-value", "import-value", "an imported value is not the exported one", w());
  const pubExports = ["A", "B"].map((x) => acc.resolve("Net", acc.exports[outputName(name, `digitrafficpublic${x}Subnet`)]?.[1]));
  ctx.equal(pubExports, pub.sort((a, b) => (a[1].Properties.AvailabilityZone < b[1].Properties.AvailabilityZone ? -1 : 1)).map(([s]) => `Net:${s}`), "export-public", "the exported public subnets are not the public subnets", w());
  // database
  let reader, writer, ident;
  if (mode === "import") {
    reader = imported.clusterReadEndpoint;
    writer = imported.clusterWriteEndpoint;
    ident = name + "-db";
    ctx.expect(db.clusterIdentifier === ident, "identifier", "the cluster's identifier was not found", w({ got: db.clusterIdentifier }));
    ctx.expect(S.Db.of("AWS::RDS::DBCluster").length === 0, "import-creates", "importing a cluster creates one", w());
  } else {
    const cl = S.Db.of("AWS::RDS::DBCluster");
    ctx.expect(cl.length === 1, "cluster", "no cluster was created", w());
    const [id, R] = cl[0];
    const P = R.Properties;
    reader = `Db:${id}.ReadEndpoint.Address`;
    writer = `Db:${id}.Endpoint.Address`;
    ident = `Db:${id}`;
    ctx.expect(R.DeletionPolicy === "Retain" && R.UpdateReplacePolicy === "Retain" && P.DeletionProtection === true, "cluster-retain", "the database may be deleted with its stack", w());
    ctx.expect(P.StorageEncrypted === (c.encrypted ?? true), "cluster-encrypted", "the database is not encrypted as configured", w({ P }));
    const keys = S.Db.of("AWS::KMS::Key");
    ctx.expect(keys.length === (c.encrypted ? 1 : 0) && (c.encrypted ? target(P.KmsKeyId) === keys[0][0] && keys[0][1].Properties.EnableKeyRotation === true && keys[0][1].DeletionPolicy === "Retain" : P.KmsKeyId === undefined), "cluster-key", "the database key is missing, unused, not rotated or deletable", w({ keys, k: P.KmsKeyId }));
    ctx.expect(P.BackupRetentionPeriod === 35, "cluster-backup", "the database is not backed up for 35 days", w());
    ctx.expect(P.Port === 5432 && P.Engine === "aurora-postgresql" && P.EngineVersion === VERSIONS[0].auroraPostgresFullVersion, "cluster-engine", "the cluster's engine, version or port is wrong", w({ P }));
    ctx.equal(P.VpcSecurityGroupIds, ["sg-db"], "cluster-sg", "the cluster does not have exactly the given security group", w());
    ctx.expect(P.SnapshotIdentifier === c.snapshot, "cluster-snapshot", "the cluster is not created from the given snapshot", w({ P }));
    if (!c.snapshot) ctx.expect(/secret:db-AbCdEf:SecretString:db\.superuser::/.test(text(P.MasterUsername)) && /secret:db-AbCdEf:SecretString:db\.superuser\.password::/.test(text(P.MasterUserPassword)), "cluster-credentials", "the superuser is not taken from the secret", w({ u: P.MasterUsername, p: P.MasterUserPassword }));
    const sg = S.Db.find("AWS::RDS::DBSubnetGroup", () => true)?.[1].Properties;
    ctx.equal((sg?.SubnetIds ?? []).map((x) => acc.resolve("Db", x)).sort(), [...bySubnet].sort(), "cluster-subnets", "the cluster is not in the private subnets", w({ sg }));
    const inst = S.Db.of("AWS::RDS::DBInstance").map(([iid, x]) => [iid, x.Properties]);
    ctx.equal(inst.map(([, x]) => x.DBInstanceClass).sort(), [c.writer, ...c.readers].map((x) => "db." + x.instanceType.toString()).sort(), "cluster-instances", "the cluster's instances are not the ones asked for", w());
    ctx.expect(inst.every(([, x]) => target(x.DBClusterIdentifier) === id && x.PubliclyAccessible !== true && x.EnablePerformanceInsights === true && x.AllowMajorVersionUpgrade !== true), "cluster-instance", "an instance is public, foreign, unmonitored or upgrades by itself", w({ inst }));
    const groups = S.Db.props("AWS::RDS::DBClusterParameterGroup");
    ctx.equal(groups.map((g) => g.Family).sort(), c.versions.map((v) => "aurora-postgresql" + v.auroraPostgresMajorVersion).sort(), "parameter-groups", "there is not one cluster parameter group per version", w());
    for (const g of [...groups, ...S.Db.props("AWS::RDS::DBParameterGroup")]) ctx.expect(g.Parameters?.work_mem === String(c.workmem ?? 524288) && g.Parameters?.random_page_cost === "1", "parameters", "a parameter group does not have the parameters asked for", w({ g }));
    const ex = (n) => acc.resolve("Db", acc.exports[outputName(name, n)]?.[1]);
    ctx.equal([ex(DbStack.CLUSTER_IDENTIFIER_EXPORT_NAME), ex(DbStack.CLUSTER_READ_ENDPOINT_EXPORT_NAME), ex(DbStack.CLUSTER_WRITE_ENDPOINT_EXPORT_NAME)], [ident, reader, writer], "cluster-exports", "the exported endpoints are not the cluster's", w());
  }
  ctx.equal([out("Pclusterreader"), out("Pclusterwriter"), out("Pclusteridentifier")], [reader, writer, ident], "cluster-parameters", "the cluster's parameters do not name its endpoints", w());
  // proxy
  const px = S.Proxy.of("AWS::RDS::DBProxy");
  const ep = S.Proxy.of("AWS::RDS::DBProxyEndpoint");
  const tg = S.Proxy.props("AWS::RDS::DBProxyTargetGroup");
  ctx.expect(px.length === 1 && ep.length === 1 && tg.length === 1, "proxy", "the proxy, its reader endpoint or target is missing", w());
  const PP = px[0][1].Properties, EP = ep[0][1].Properties;
  ctx.expect(PP.DBProxyName === (c.proxyName ?? "AuroraProxy") && PP.EngineFamily === "POSTGRESQL" && JSON.stringify(PP.VpcSecurityGroupIds) === '["sg-proxy"]' && PP.Auth.length === 1 && /secret:proxy-AbCdEf/.test(text(PP.Auth[0].SecretArn)), "proxy-config", "the proxy is not configured as asked", w({ PP }));
  ctx.equal([PP.VpcSubnetIds, EP.VpcSubnetIds].map((l) => l.map((x) => acc.resolve("Proxy", x)).sort()), [[...bySubnet].sort(), [...bySubnet].sort()], "proxy-subnets", "the proxy is not in the private subnets", w());
  ctx.expect(EP.TargetRole === "READ_ONLY" && JSON.stringify(EP.VpcSecurityGroupIds) === '["sg-proxy"]' && [PP.DBProxyName, undefined].includes(EP.DBProxyName) || target(EP.DBProxyName) === px[0][0], "proxy-reader", "the proxy's reader endpoint is not read-only or belongs to another proxy", w({ EP }));
  ctx.equal(tg[0].DBClusterIdentifiers, [mode === "import" ? ident : "the-cluster"], "proxy-target", "the proxy does not serve the given cluster", w({ tg }));
  const st = S.Proxy.props("AWS::IAM::Policy").flatMap((p) => p.PolicyDocument.Statement);
  ctx.expect(st.some((s) => [].concat(s.Action).includes("secretsmanager:GetSecretValue") && [].concat(s.Resource).every((x) => /secret:proxy-AbCdEf/.test(text(x)))), "proxy-secret", "the proxy may not read its secret, or may read others", w({ st }));
  const pr = `Proxy:${ep[0][0]}.Endpoint`, pw = `Proxy:${px[0][0]}.Endpoint`;
  ctx.equal([out("Pproxyreader"), out("Pproxywriter")], [pr, pw], "proxy-parameters", "the proxy's parameters do not name its endpoints", w());
  // DNS
  const zone = S.Dns.of("AWS::Route53::HostedZone");
  ctx.expect(zone.length === 1 && zone[0][1].Properties.Name === `${name}.local.` && zone[0][1].DeletionPolicy === "Retain" && zone[0][1].Properties.VPCs.length === 1 && acc.resolve("Dns", zone[0][1].Properties.VPCs[0].VPCId) === `Net:${vpcId}`, "zone", "the private zone is missing, deletable or not in the network", w({ zone }));
  const recs = S.Dns.props("AWS::Route53::RecordSet");
  const lookup = (h) => recs.filter((x) => x.Name === `${h}.${name}.local.` && x.Type === "CNAME" && target(x.HostedZoneId) === zone[0]?.[0]).map((x) => x.ResourceRecords.map((y) => acc.resolve("Dns", y)));
  for (const [h, want] of [["db", writer], ["db-ro", reader], ["proxy", pw], ["proxy-ro", pr]]) {
    ctx.observe("resolved");
    ctx.equal(lookup(h), [[want]], "dns-" + h, `the name ${h} does not lead to its endpoint`, w());
  }
  ctx.expect(recs.length === 4 && recs.every((x) => String(x.TTL) === "30"), "dns-ttl", "names are cached longer than documented, or there are other names", w({ recs }));
}

function matches(pattern, v) {
  return Object.entries(pattern).every(([k, p]) => {
    const x = v?.[k];
    const hit = (leaf) => p.some((q) => (typeof q === "object" ? (q.prefix !== undefined ? String(leaf).startsWith(q.prefix) : q["anything-but"] !== undefined ? ![].concat(q["anything-but"]).includes(leaf) : q.exists === (leaf !== undefined)) : q === leaf));
    if (Array.isArray(p)) return Array.isArray(x) ? x.some(hit) : hit(x);
    return Array.isArray(x) ? x.some((y) => matches(p, y)) : x !== undefined && matches(p, x);
  });
}
function securityRule(ctx, rng, i) {
  const app = newApp();
  const s = new cdk.Stack(app, "Sec");
  const own = rng.bool();
  const topic = own ? new sns.Topic(s, "T") : sns.Topic.fromTopicArn(s, "T", "arn:aws:sns:eu-west-1:1:security");
  new DigitrafficSecurityRule(s, topic);
  const cfn = new Cfn(app.synth({ force: true }).getStackByName("Sec").template);
  const rule = cfn.props("AWS::Events::Rule")[0] ?? {};
  ctx.expect(cfn.of("AWS::Events::Rule").length === 1 && rule.State === "ENABLED" && rule.Targets?.length === 1 && (own ? target(rule.Targets[0].Arn) === cfn.of("AWS::SNS::Topic")[0][0] : rule.Targets[0].Arn === "arn:aws:sns:eu-west-1:1:security"), "security-target", "security findings do not reach the topic", () => rule);
  if (own) ctx.expect(cfn.props("AWS::SNS::TopicPolicy").some((p) => p.PolicyDocument.Statement.some((x) => x.Principal?.Service === "events.amazonaws.com" && [].concat(x.Action).includes("sns:Publish"))), "security-permission", "the rule may not publish to the topic");
  for (let k = 0; k < ctx.n(300, 1500); k++) {
    const f = { Compliance: { Status: rng.pick(["FAILED", "FAILED", "FAILED", "PASSED", "WARNING"]) }, Workflow: { Status: rng.pick(["NEW", "NEW", "NEW", "NOTIFIED", "SUPPRESSED", "RESOLVED"]) }, Severity: { Label: rng.pick(["HIGH", "CRITICAL", "MEDIUM", "LOW", "INFORMATIONAL"]) }, RecordState: rng.pick(["ACTIVE", "ARCHIVED"]) };
    const e = { source: rng.pick(["aws.securityhub", "aws.securityhub", "aws.securityhub", "aws.guardduty"]), "detail-type": rng.pick(["Security Hub Findings - Imported", "Security Hub Findings - Imported", "Security Hub Findings - Custom Action"]), detail: { findings: [f] } };
    const want = e.source === "aws.securityhub" && e["detail-type"].endsWith("Imported") && f.Compliance.Status === "FAILED" && f.Workflow.Status === "NEW" && ["HIGH", "CRITICAL"].includes(f.Severity.Label);
    const got = matches(rule.EventPattern ?? {}, e);
    ctx.observe("findings");
    if (want) ctx.observe("notified");
    ctx.case(e, true);
    ctx.expect(got === want, want ? "finding-missed" : "finding-noise", want ? "a serious new finding is not notified" : "a finding that should not be notified is", () => ({ e, pattern: rule.EventPattern }));
  }
  void i;
}

function bucket(ctx, rng, i) {
  const app = newApp();
  const s = new cdk.Stack(app, "B" + i);
  const b = new s3.Bucket(s, "Bucket");
  const other = new s3.Bucket(s, "Other");
  const grants = [];
  for (let k = 0; k < rng.int(1, 3); k++) {
    const oac = rng.bool();
    const g = { oac, who: oac ? "arn:aws:cloudfront::1:distribution/D" + k : "canonical" + k, actions: rng.pick([undefined, undefined, ["s3:GetObject", "s3:ListBucket"], ["s3:PutObject"]]), res: rng.pick([undefined, undefined, "sub"]), effect: rng.pick([undefined, undefined, "Allow", "Deny"]) };
    const cfg = { bucket: b, ...(g.actions ? { actions: g.actions } : {}), ...(g.res ? { resources: [b.bucketArn + "/sub/*"] } : {}), ...(g.effect ? { effect: iam.Effect[g.effect === "Deny" ? "DENY" : "ALLOW"] } : {}) };
    if (oac) grantOACRights({ ...cfg, distributionArn: g.who });
    else grantOAIRights({ ...cfg, canonicalUserId: g.who });
    grants.push(g);
  }
  void other;
  const cfn = new Cfn(app.synth({ force: true }).getStackByName("B" + i).template);
  const bid = cfn.find("AWS::S3::Bucket", (_, id) => id.startsWith("Bucket"))[0];
  const pols = cfn.props("AWS::S3::BucketPolicy").filter((p) => target(p.Bucket) === bid);
  const st = pols.flatMap((p) => p.PolicyDocument.Statement);
  const arn = "${" + bid + ".Arn}";
  const decide = (who, action, key) => {
    let ok = false;
    for (const x of st) {
      const pr = x.Principal;
      if (who.svc ? ![].concat(pr?.Service ?? []).includes("cloudfront.amazonaws.com") : ![].concat(pr?.CanonicalUser ?? []).includes(who.canonical)) continue;
      if (![].concat(x.Action).some((a) => iamMatch(a, action)) || ![].concat(x.Resource).some((r) => iamMatch(text(r), `${arn}/${key}`))) continue;
      const cond = x.Condition ?? {};
      if (Object.keys(cond).some((k) => k !== "StringEquals")) continue;
      if (!Object.entries(cond.StringEquals ?? {}).every(([k, v]) => k === "AWS:SourceArn" && [].concat(v).includes(who.svc))) continue;
      if (x.Effect === "Deny") return false;
      ok = true;
    }
    return ok;
  };
  for (let k = 0; k < 40; k++) {
    const n = rng.int(0, 3);
    const who = rng.bool() ? { svc: "arn:aws:cloudfront::1:distribution/D" + n } : { canonical: "canonical" + n };
    const action = rng.pick(["s3:GetObject", "s3:PutObject", "s3:ListBucket", "s3:DeleteObject"]);
    const key = rng.pick(["x.json", "sub/x.json", "subway"]);
    const rel = grants.filter((g) => (g.oac ? g.who === who.svc : g.who === who.canonical) && (g.actions ?? ["s3:GetObject"]).includes(action) && (!g.res || key.startsWith("sub/")));
    const want = rel.some((g) => g.effect !== "Deny") && !rel.some((g) => g.effect === "Deny");
    ctx.observe("object-requests");
    ctx.case(["obj", grants, who, action, key], true);
    ctx.expect(decide(who, action, key) === want, want ? "bucket-denied" : "bucket-allowed", "a bucket grant allows or denies a request it should not", () => ({ grants, who, action, key, st }));
  }
}

function parse(ctx, rng) {
  for (let i = 0; i < ctx.n(1500, 15000); i++) {
    const id = rng.word(1, 10) + rng.pick(["", "-db", "-db-" + rng.word(1, 5)]);
    const ep = rng.pick([`${id}.cluster-abc.eu-west-1.rds.amazonaws.com`, `${id}.cluster-custom-x.rds`, `${id}.cluster`, `${id}.rds.amazonaws.com`, ".cluster-abc", "", id]);
    const fallback = rng.pick([undefined, "", "fb"]);
    const arg = rng.bool(0.1) ? undefined : { clusterWriteEndpoint: ep, clusterReadEndpoint: "r" };
    const at = arg ? ep.indexOf(".cluster") : -1;
    const want = at > 0 ? ep.slice(0, at) : fallback || undefined;
    const r = ctx.attemptSync(() => parseClusterIdentifier(arg, fallback));
    ctx.observe("addresses");
    ctx.case(["addr", arg, fallback], true);
    if (want === undefined) ctx.expect(!r.ok, "address-accepted", "an address without a cluster was accepted", () => ({ arg, fallback, got: r.value }));
    else ctx.equal([r.ok, r.value], [true, want], "address", "the cluster identifier is wrong", () => ({ arg, fallback }));
  }
}

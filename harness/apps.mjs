// Every application of the repository: the class of its stack and a configuration for it.
import fs from "node:fs";
import path from "node:path";
import { createRequire } from "node:module";
import { REPO, repo, install, stub } from "./hooks.mjs";
import { baseConfig, cdk, inScratch, newApp } from "./infra.mjs";
import { Cfn, text } from "./cfn.mjs";

install();
stub("globby", "globby.mjs");
const CF_ARN = "arn:aws:cloudfront::123456789012:distribution/X";
/** dir -> {file, cls, config, args?: (scope, id, config) => ctor arguments} */
export const APPS = {
  "marine/aton-faults": { file: "aton-faults-stack", cls: "AtonFaultsStack", config: { url: "https://faults.example", integrations: [{ domain: "C_NA", url: "https://c.example" }] } },
  "marine/gofrep": { file: "gofrep-stack", cls: "GofrepStack", config: { apiKey: "key-of-gofrep-which-is-long-enough" } },
  "marine/marinecam": { file: "marinecam-stack", cls: "MarinecamStack", config: { enableKeyProtectedApi: true, enablePasswordProtectedApi: true, updateFrequency: () => cdk.Duration.minutes(5) } },
  "marine/port-call": { file: "port-call-stack", cls: "PortCallStack", config: { enableUpdate: true } },
  "marine/portactivity": { file: "portactivity-stack", cls: "PortActivityStack", config: { dlqBucketName: "pa-dlq", dlqNotificationDuration: () => cdk.Duration.minutes(10), dbClusterIdentifier: "cl", documentationBucketName: "doc", cloudfrontArn: CF_ARN, awakeETD: true, enableETBForAllPorts: true } },
  "marine/sea-state-estimate": { file: "sse-stack", cls: "SseStack", config: {} },
  "marine/shiplight": { file: "shiplight-stack", cls: "ShiplightStack", config: {} },
  "marine/voyage-plan-gateway": { file: "voyage-plan-gateway-stack", cls: "VoyagePlanGatewayStack", config: {} },
  "marine/winter-navigation": { file: "winter-navigation-stack", cls: "WinterNavigationStack", config: {} },
  "other/opensearch-monitors": { file: "monitor-stack", cls: "UpdateOSMonitorsStack", config: { env: { region: "eu-west-1", account: "123456789012" }, vpcId: "vpc-1", osRoleArn: "arn:aws:iam::123456789012:role/os", osHost: "os.example", osVpcEndpoint: "vpce.example", createLambda: true, monitors: [], secretId: "the-secret" }, args: (s, id, c) => [s, id, c] },
  "other/os-key-figures": { file: "os-key-figures-stack", cls: "OsKeyFiguresStack", flat: true, config: { openSearchVPCEndpoint: "vpce.example", openSearchHost: "os.example", openSearchLambdaRoleArn: "arn:aws:iam::123456789012:role/os", slackWebhook: "https://hooks.slack.example/x", mysql: { password: "p", database: "d", host: "h", user: "u" }, allowedIpAddresses: ["1.2.3.4"], rdsSecurityGroupId: "sg-1", marineAccountName: "marine-acc", railAccountName: "rail-acc", roadAccountName: "road-acc", afirAccountName: "afir-acc", osIndex: "idx", osAfirIndex: "afir", visualizationsBucketName: "viz" }, args: (s, id, c) => [s, id, c, { env: { region: "eu-west-1", account: "123456789012" } }] },
  "other/status": { file: "status-stack", cls: "StatusStack", flat: true, config: { defaultLambdaDurationSeconds: 60, secretId: "the-secret", nodePingTimeoutSeconds: 30, nodePingCheckInterval: 1, allowFromIpAddresses: ["1.2.3.4"], cStatePageUrl: "https://status.example", gitHubRepo: "r", gitHubOwner: "o", gitHubBranch: "b", gitHubWorkflowFile: "w.yml", gitHubUpdateMaintenanceWorkflowFile: "m.yml", monitoredApps: [], alarmTopicArn: "arn:aws:sns:eu-west-1:123456789012:alarm", warningTopicArn: "arn:aws:sns:eu-west-1:123456789012:warning" }, args: (s, id, c) => [s, id, c, { env: { region: "eu-west-1", account: "123456789012" } }] },
  "other/swagger-joiner": { file: "swagger-joiner-stack", cls: "SwaggerJoinerStack", config: { appUrl: "https://app.example", betaAppUrl: "https://beta.example", apiGwAppIds: ["abc"], bucketName: "swagger", s3VpcEndpointId: "vpce-1", cloudfrontArn: CF_ARN, directory: "dt-api", host: "host.example", title: "T", description: "D", termsOfService: "https://terms.example", contact: { name: "n", url: "https://c.example" }, license: { name: "l", url: "https://l.example" }, removeSecurity: true } },
  "other/test-api-stack": { file: "test-api-stack", cls: "TestApiStack", config: {} },
  "rail/rami": { file: "rami-stack", cls: "RamiStack", config: { dlqBucketName: "rami-dlq" } },
  "rail/yearly-plans": { file: "yearly-plans-stack", cls: "YearlyPlansStack", config: { yearlyPlansBucketName: "yearly", projectPlansBucketName: "projects", cloudFrontArn: CF_ARN, yearlyPlansBucketCorsRules: [], projectPlansBucketCorsRules: [] } },
  "road/counting-site": { file: "counting-site-cdk-stack", cls: "CountingSiteCdkStack", config: {} },
  "road/data-upload": { file: "data-upload-stack", cls: "DataUploadStack", config: { rttiTopicArn: "arn:aws:sns:eu-west-1:123456789012:rtti", sendMqtt: true } },
  "road/lam-history": { file: "lam-history-stack", cls: "LamHistoryStack", config: { bucketName: "lam", cloudfrontDistributionArn: CF_ARN } },
  "road/maintenance-tracking": { file: "maintenance-tracking-stack", cls: "MaintenanceTrackingStack", config: { sqsDlqBucketName: "mt-dlq", sqsMessageBucketName: "mt-msg" } },
  "road/maintenance-tracking-municipality": { file: "maintenance-tracking-municipality-cdk-stack", cls: "MaintenanceTrackingMunicipalityCdkStack", config: {} },
  "road/variable-signs": { file: "variable-signs-cdk-stack", cls: "VariableSignsCdkStack", config: {} },
};
const value = (v) => (typeof v === "function" ? v() : v);

/** packages that are not installed: whatever anyone imports from them is a callable nothing */
export function autostubs() {
  if (globalThis.__autostub) return;
  globalThis.__anything = function anything() {
    const f = function () {};
    return new Proxy(f, {
      get: (t, k) => (k === "then" || k === Symbol.toPrimitive || k === Symbol.iterator ? undefined : k === "prototype" ? t.prototype : globalThis.__anything()),
      apply: () => globalThis.__anything(),
      construct: () => globalThis.__anything(),
      set: () => true,
    });
  };
  const names = new Map();
  globalThis.__autostub = (spec) => {
    if (!names.size) scanImports(names);
    const set = names.get(spec) ?? new Set();
    const body = [...set].map((n) => `export const ${n} = globalThis.__anything();`).join("\n") + "\nexport default globalThis.__anything();";
    return "data:text/javascript," + encodeURIComponent(body + "\n//" + spec);
  };
}
function scanImports(names) {
  const walk = (d) => {
    for (const e of fs.readdirSync(d, { withFileTypes: true })) {
      if (e.name === "node_modules" || e.name === "dist" || e.name.startsWith(".")) continue;
      const p = path.join(d, e.name);
      if (e.isDirectory()) walk(p);
      else if (/\.ts$/.test(e.name)) {
        const t = fs.readFileSync(p, "utf8");
        for (const m of t.matchAll(/(?:import|export)\s+(?!type\b)([^;'"]*?)\s*from\s*["']([^"'.][^"']*)["']/g)) {
          const set = names.get(m[2]) ?? names.set(m[2], new Set()).get(m[2]);
          const b = /\{([\s\S]*)\}/.exec(m[1]);
          if (b) for (const x of b[1].split(",")) {
            const n = x.trim().split(/\s+as\s+/)[0];
            if (n && !n.startsWith("type ") && /^[A-Za-z_$][\w$]*$/.test(n) && n !== "default") set.add(n);
          }
        }
      }
    }
  };
  for (const d of ["aviation", "marine", "other", "rail", "road", "tools"]) walk(path.join(REPO, d));
}

const esb = createRequire("/opt/veriftools/node/node_modules/")("/opt/veriftools/node/node_modules/esbuild");
/** what globby does with the pattern of the build tool */
globalThis.__globby = async (pattern) => {
  const base = pattern.slice(0, pattern.indexOf("*")).replace(/\/$/, "");
  const re = new RegExp("^" + pattern.replace(/[.+^${}()|[\]\\]/g, "\\$&").replaceAll("**/", "\u0001").replaceAll("*", "[^/]*").replaceAll("\u0001", "(?:.*/)?") + "$");
  const found = [];
  const walk = (d) => {
    if (!fs.existsSync(d)) return;
    for (const n of fs.readdirSync(d).sort()) {
      const p = `${d}/${n}`;
      if (fs.statSync(p).isDirectory()) walk(p);
      else if (re.test(p)) found.push(p);
    }
  };
  walk(base);
  return found;
};
/** Runs the repository's own build configuration in the scratch directory; output file -> source file. */
async function bundle(dir) {
  const outputs = new Map();
  const note = (result, sources) => {
    for (const [o, m] of Object.entries(result.metafile.outputs)) if (m.entryPoint) outputs.set(path.resolve(o), `${dir}/${m.entryPoint}`);
    void sources;
  };
  fs.symlinkSync(path.join(REPO, dir, "src"), "src");
  const quiet = console.log;
  console.log = () => {};
  try {
    const { createEsbuildConfig } = await repo("tools/esbuild/src/common.ts");
    let config;
    try {
      config = await createEsbuildConfig();
    } catch {} // an application without lambdas has nothing to build
    if (config) note(await esb.build({ ...config, bundle: false, external: undefined, plugins: [], banner: undefined, sourcemap: false, metafile: true, write: true, preserveSymlinks: true, absWorkingDir: process.cwd(), target: "es2022", logLevel: "silent" }));
  } finally {
    console.log = quiet;
  }
  const canaries = await globalThis.__globby("src/canaries/*.ts");
  if (canaries.length) note(await esb.build({ entryPoints: canaries, outdir: "dist/nodejs/node_modules", bundle: false, format: "cjs", metafile: true, preserveSymlinks: true, absWorkingDir: process.cwd(), logLevel: "silent" }));
  return outputs;
}

/** The application as deployed: its template, and for every asset file the source it was built from. */
export async function appBuild(dir, overrides = {}) {
  const a = APPS[dir];
  return inScratch(async () => {
    const outputs = await bundle(dir);
    fs.mkdirSync("cdk.out", { recursive: true });
    fs.mkdirSync("dist/canaries/nodejs/node_modules", { recursive: true });
    fs.mkdirSync("dist/lambda", { recursive: true });
    for (const extra of ["resources"]) if (fs.existsSync(path.join(REPO, dir, extra))) fs.cpSync(path.join(REPO, dir, extra), extra, { recursive: true });
    const digests = new Map();
    for (const [o, src] of outputs) {
      // every built file is marked with its source
      fs.writeFileSync(o, `// ${src}\n`);
      digests.set(src, o);
    }
    const m = await repo(`${dir}/src/${a.file}.ts`);
    const app = newApp({ "aws:cdk:enable-asset-metadata": true, "aws:cdk:disable-asset-staging": undefined });
    const cfg = { ...Object.fromEntries(Object.entries(a.config).map(([k, v]) => [k, value(v)])), ...overrides };
    const stack = a.flat || a.args ? new m[a.cls](...a.args(app, "S", cfg)) : new m[a.cls](app, "S", baseConfig(cfg));
    app.synth({ force: true });
    const asm = app.synth();
    const cfns = asm.stacks.map((x) => Object.assign(new Cfn(x.template), { name: x.stackName }));
    void stack;
    /** the source a handler name of an asset leads to */
    const source = (asset, handler, folder = "") => {
      const file = handler.slice(0, handler.lastIndexOf("."));
      for (const ext of [".mjs", ".js", ".cjs", ".py"]) {
        const p = path.join(asm.directory, asset, folder, file + ext);
        if (fs.existsSync(p)) return { src: /^\/\/ (.*)/.exec(fs.readFileSync(p, "utf8"))?.[1] ?? "data", export: handler.slice(handler.lastIndexOf(".") + 1) };
      }
      return undefined;
    };
    const functions = [];
    const canaries = [];
    for (const cfn of cfns) {
      for (const [id, r] of cfn.of("AWS::Lambda::Function")) {
        const p = r.Properties;
        const asset = r.Metadata?.["aws:asset:path"];
        functions.push({ cfn, id, p, name: text(p.FunctionName ?? id), inline: p.Code?.ZipFile, asset, src: asset && p.Handler && source(asset, p.Handler), foreign: asset && fs.existsSync(path.join(asm.directory, asset)) && !fs.readdirSync(path.join(asm.directory, asset), { recursive: true }).some((f) => { const x = path.join(asm.directory, asset, f); return fs.statSync(x).isFile() && /^\/\/ (marine|rail|road|other)\//.test(fs.readFileSync(x, "utf8").slice(0, 40)); }) });
      }
      for (const [id, r] of cfn.of("AWS::Synthetics::Canary")) {
        const p = r.Properties;
        const asset = r.Metadata?.["aws:asset:path"] ?? p.Code?.SourceLocationArn;
        const dirs = fs.readdirSync(asm.directory).filter((d) => d.startsWith("asset.") && fs.statSync(path.join(asm.directory, d)).isDirectory());
        const src = dirs.map((d) => source(d, p.Code.Handler, "nodejs/node_modules")).find(Boolean);
        canaries.push({ cfn, id, p, name: text(p.Name), asset, src });
      }
    }
    return { dir, cfns, functions, canaries, outputs: new Set(outputs.values()) };
  });
}

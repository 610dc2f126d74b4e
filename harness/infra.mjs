// A DigitrafficStack under test, built from /repo's own sources.
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { lib } from "./hooks.mjs";
import { cdk, cdkMod, synth } from "./cfn.mjs";
export { cdk, cdkMod, synth };

/** Runs f in a scratch directory (assets are looked up relative to the cwd). */
export async function inScratch(f) {
  const cwd = process.cwd();
  const dir = fs.mkdtempSync(path.join(os.tmpdir(), "verif-infra-"));
  process.chdir(dir);
  try {
    return await f(dir);
  } finally {
    process.chdir(cwd);
    fs.rmSync(dir, { recursive: true, force: true });
  }
}
export function makeLambdaAsset(...names) {
  for (const n of names) {
    fs.mkdirSync(`dist/lambda/${n}`, { recursive: true });
    fs.writeFileSync(`dist/lambda/${n}/${path.basename(n)}.js`, "exports.handler=()=>{};\n");
  }
}
export const baseConfig = (o = {}) => ({
  shortName: "Tst",
  secretId: "the-secret",
  alarmTopicArn: "arn:aws:sns:eu-west-1:123456789012:alarm",
  warningTopicArn: "arn:aws:sns:eu-west-1:123456789012:warning",
  logsDestinationArn: "arn:aws:logs:eu-west-1:123456789012:destination:logs",
  vpcId: "vpc-1",
  lambdaDbSgId: "sg-db",
  privateSubnetIds: ["subnet-a", "subnet-b"],
  availabilityZones: ["eu-west-1a", "eu-west-1b"],
  trafficType: "Road",
  production: false,
  ...o,
  stackProps: { env: { region: "eu-west-1", account: "123456789012" }, tags: { Solution: "sol" }, ...(o.stackProps ?? {}) },
});
export function newApp(context = {}) {
  // no staging, no metadata: only the templates are of interest
  return new cdk.App({ outdir: fs.mkdtempSync(path.join(process.cwd(), "cdk-")), analyticsReporting: false, context: { "aws:cdk:disable-asset-staging": true, "aws:cdk:enable-path-metadata": false, "aws:cdk:disable-stack-trace": true, ...context } });
}
const stackModule = await lib("aws/infra/stack/stack.ts");
export const { DigitrafficStack } = stackModule;
let n = 0;
/** Builds a stack with `build(stack)` and returns its CloudFormation. */
export function build(fill, config = {}, id = `St${++n}`, context = {}) {
  const app = newApp(context);
  const stack = new DigitrafficStack(app, id, baseConfig(config));
  const extra = fill(stack, app);
  const cfn = synth(app, stack);
  return Object.assign(cfn, { stack, extra });
}
export function inlineFunction(stack, id = "F") {
  const l = cdkMod("aws-lambda");
  return new l.Function(stack, id, { runtime: l.Runtime.NODEJS_22_X, code: l.Code.fromInline("x"), handler: "index.handler", functionName: `Tst-${id}`, timeout: cdk.Duration.seconds(10), reservedConcurrentExecutions: 1, memorySize: 128 });
}

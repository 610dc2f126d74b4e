// Synthesizes CDK stacks of /repo and gives access to the resulting CloudFormation.
import { install, libPackage } from "./hooks.mjs";
install();
process.env.CDK_DISABLE_VERSION_CHECK = "1";
process.env.JSII_SILENCE_WARNING_UNTESTED_NODE_VERSION = "1";
export const cdk = libPackage("aws-cdk-lib");
export const cdkMod = (m) => libPackage("aws-cdk-lib/" + m);
export const { Construct } = libPackage("constructs");

export class Cfn {
  constructor(template) {
    this.template = template;
    this.resources = template.Resources ?? {};
  }
  /** [logicalId, resource][] of a CloudFormation type */
  of(type) {
    return Object.entries(this.resources).filter(([, r]) => r.Type === type);
  }
  props(type) {
    return this.of(type).map(([, r]) => r.Properties ?? {});
  }
  find(type, pred) {
    return this.of(type).find(([id, r]) => pred(r.Properties ?? {}, id, r));
  }
  byId(id) {
    return this.resources[id];
  }
}
/** CloudFormation of one stack, from a full synth of its app (aspects and validations included). */
export function synth(app, stack) {
  const asm = app.synth({ force: true });
  const art = asm.getStackByName(stack.stackName);
  return Object.assign(new Cfn(art.template), { messages: art.messages ?? [], assembly: asm });
}
/** logical id a Ref/GetAtt points to */
export function target(v) {
  if (v?.Ref) return v.Ref;
  const g = v?.["Fn::GetAtt"];
  if (g) return Array.isArray(g) ? g[0] : g.split(".")[0];
  const j = v?.["Fn::Join"];
  if (j) for (const x of j[1]) { const t = typeof x === "object" ? target(x) : undefined; if (t && !t.startsWith("AWS::")) return t; }
  const s = v?.["Fn::Sub"];
  if (typeof s === "string") return /\$\{([^.}]+)/.exec(s)?.[1];
  return undefined;
}
/** flattens Fn::Join to text, references as ${Id.Attr} */
export function text(v) {
  if (v === null || v === undefined) return String(v);
  if (typeof v !== "object") return String(v);
  if (v.Ref) return "${" + v.Ref + "}";
  if (v["Fn::GetAtt"]) return "${" + [].concat(v["Fn::GetAtt"]).join(".") + "}";
  if (v["Fn::Join"]) return v["Fn::Join"][1].map(text).join(v["Fn::Join"][0]);
  if (v["Fn::Sub"]) return [].concat(v["Fn::Sub"])[0];
  return JSON.stringify(v);
}
/** do two IAM-style action/resource patterns match a value */
export const iamMatch = (pattern, value) => new RegExp("^" + pattern.replace(/[.+^${}()|[\]\\]/g, "\\$&").replaceAll("*", ".*").replaceAll("?", ".") + "$").test(value);

// Builds the edge handlers the way the deployment does (one CommonJS file per
// handler under dist/lambda) and plays CloudFront against a synthesized template.
import fs from "node:fs";
import path from "node:path";
import vm from "node:vm";
import { createRequire } from "node:module";
import { REPO, LIB, libPackage } from "./hooks.mjs";
import { target, text } from "./cfn.mjs";

const esbuild = createRequire("/opt/veriftools/node/node_modules/")("/opt/veriftools/node/node_modules/esbuild");
const CF = path.join(REPO, "other/cloudfront");
const LIBREQ = createRequire(path.join(LIB, "src/index.ts"));

/** bundles every handler into <dir>/dist/lambda/*.cjs */
export async function bundleHandlers(dir) {
  const src = path.join(CF, "src/lambda");
  const entryPoints = fs.readdirSync(src).filter((f) => /^(lambda|function)-.*\.ts$/.test(f) && f !== "function-events.ts").map((f) => path.join(src, f));
  const common = {
    name: "common",
    setup(b) {
      b.onResolve({ filter: /^@digitraffic\/common\/dist\// }, (a) => ({ path: path.join(LIB, "src", a.path.slice("@digitraffic/common/dist/".length).replace(/\.js$/, "") + ".ts") }));
      b.onResolve({ filter: /^[@a-z]/ }, (a) => (a.path.startsWith("node:") || a.kind === "entry-point" ? undefined : { path: a.path, external: true }));
    },
  };
  const opt = { bundle: true, platform: "node", target: "es2022", write: false, outdir: dir, logLevel: "silent", plugins: [common] };
  const cjs = await esbuild.build({ ...opt, entryPoints: entryPoints.filter((f) => path.basename(f).startsWith("lambda-")), format: "cjs" });
  // CloudFront functions are plain scripts: no wrapper, exports as the last statement
  const esm = await esbuild.build({ ...opt, entryPoints: entryPoints.filter((f) => path.basename(f).startsWith("function-")), format: "esm" });
  fs.mkdirSync(path.join(dir, "dist/lambda"), { recursive: true });
  for (const f of cjs.outputFiles) fs.writeFileSync(path.join(dir, "dist/lambda", path.basename(f.path).replace(/\.js$/, ".cjs")), f.text);
  for (const f of esm.outputFiles) {
    const t = "'use strict';\n\n" + f.text.replace(/export\s*\{([^}]*)\};?/, (_, l) => l.split(",").map((x) => x.trim()).filter(Boolean).map((x) => { const [a, b] = x.split(" as "); return `exports.${b ?? a} = ${a};`; }).join("\n"));
    fs.writeFileSync(path.join(dir, "dist/lambda", path.basename(f.path).replace(/\.js$/, ".cjs")), t);
  }
  return cjs.outputFiles.length + esm.outputFiles.length;
}

/** the handler of an inline Lambda@Edge function, as the runtime would load it */
export function loadLambda(code) {
  const module = { exports: {} };
  vm.compileFunction(code, ["require", "exports", "module"], { filename: "edge.cjs" })((s) => (s.startsWith("node:") || createRequire.builtin?.has?.(s) ? LIBREQ(s) : LIBREQ(s)), module.exports, module);
  return module.exports.handler;
}
/** the handler of a CloudFront function: a script that defines handler */
export function loadFunction(code) {
  return new vm.Script(`(function(){${code}\n;return handler;})()`, { filename: "function.js" }).runInThisContext();
}

const glob = (p) => new RegExp("^" + p.replace(/[.+^${}()|[\]\\]/g, "\\$&").replaceAll("*", ".*").replaceAll("?", ".") + "$");

export class Edge {
  /** @param cfn synthesized stack, @param dist properties of one distribution */
  constructor(cfn, dist) {
    this.cfn = cfn;
    this.c = dist.DistributionConfig;
    this.origins = new Map(this.c.Origins.map((o) => [o.Id, o]));
    this.handlers = new Map();
  }
  behavior(p) {
    return (this.c.CacheBehaviors ?? []).find((b) => glob(b.PathPattern.startsWith("/") || b.PathPattern.startsWith("*") ? b.PathPattern : "/" + b.PathPattern).test(p)) ?? this.c.DefaultCacheBehavior;
  }
  lambda(b, type) {
    const a = (b.LambdaFunctionAssociations ?? []).filter((x) => x.EventType === type);
    if (a.length > 1) throw new Error("two lambdas for " + type);
    if (!a.length) return;
    const version = this.cfn.byId(target(a[0].LambdaFunctionARN));
    const fn = this.cfn.byId(target(version.Properties.FunctionName));
    return this.once(target(version.Properties.FunctionName), () => loadLambda(fn.Properties.Code.ZipFile));
  }
  func(b, type) {
    const a = (b.FunctionAssociations ?? []).filter((x) => x.EventType === type);
    if (a.length > 1) throw new Error("two functions for " + type);
    if (!a.length) return;
    const id = target(a[0].FunctionARN);
    return this.once(id, () => loadFunction(this.cfn.byId(id).Properties.FunctionCode));
  }
  once(id, f) {
    if (!this.handlers.has(id)) this.handlers.set(id, f());
    return this.handlers.get(id);
  }
  cachePolicy(b) {
    return this.cfn.byId(target(b.CachePolicyId))?.Properties.CachePolicyConfig;
  }
  /** what the origin gets and what the viewer gets; originAnswer(req) plays the origin */
  async request(r, originAnswer) {
    const b = this.behavior(r.uri);
    const log = [];
    const req = { clientIp: r.ip ?? "1.1.1.1", method: r.method ?? "GET", uri: r.uri, querystring: r.qs ?? "", headers: {} };
    for (const [k, v] of Object.entries(r.headers ?? {})) req.headers[k.toLowerCase()] = [{ key: k, value: v }];
    const ev = (extra) => ({ Records: [{ cf: { config: {}, ...extra } }] });
    let cur = req;
    let answer;
    const fr = this.func(b, "viewer-request");
    if (fr) {
      log.push("viewer-request function");
      const out = fr({ request: { uri: cur.uri, method: cur.method } });
      if (out.statusCode) answer = { status: String(out.statusCode), headers: Object.fromEntries(Object.entries(out.headers).map(([k, v]) => [k, [{ key: k, value: v.value }]])), from: "viewer-request" };
      else cur = { ...cur, uri: out.uri };
    }
    const run = async (type) => {
      const l = this.lambda(b, type);
      if (!l || answer) return;
      log.push(type);
      const out = await l(ev({ request: cur }));
      if (out.status) answer = { headers: {}, ...out, from: type };
      else cur = out;
    };
    await run("viewer-request");
    let originReq;
    if (!answer) {
      const o = this.origins.get(b.TargetOriginId);
      cur = structuredClone(cur);
      const custom = o.CustomOriginConfig;
      cur.origin = custom || o.VpcOriginConfig ? { custom: { domainName: text(o.DomainName), path: o.OriginPath ?? "", protocol: custom?.OriginProtocolPolicy === "http-only" ? "http" : "https", customHeaders: {} } } : { s3: { domainName: text(o.DomainName), path: o.OriginPath ?? "", customHeaders: {} } };
      for (const h of o.OriginCustomHeaders ?? []) (cur.origin.custom ?? cur.origin.s3).customHeaders[h.HeaderName.toLowerCase()] = [{ key: h.HeaderName, value: text(h.HeaderValue) }];
      await run("origin-request");
    }
    if (!answer) {
      originReq = cur;
      answer = { ...structuredClone(await originAnswer(originReq)), from: "origin" };
      const l = this.lambda(b, "origin-response");
      if (l) {
        log.push("origin-response");
        answer = { ...(await l(ev({ request: cur, response: answer }))), from: "origin" };
      }
    }
    // responses a viewer request produced do not go through viewer-response
    if (answer.from !== "viewer-request" && !(answer.from === "origin" && Number(answer.status) >= 400)) {
      const fv = this.func(b, "viewer-response");
      if (fv) {
        log.push("viewer-response function");
        const out = fv({ request: { uri: cur.uri, method: cur.method }, response: { statusCode: Number(answer.status), headers: Object.fromEntries(Object.entries(answer.headers).map(([k, v]) => [k, { value: v[0].value }])) } });
        answer = { ...answer, status: String(out.statusCode), headers: Object.fromEntries(Object.entries(out.headers).map(([k, v]) => [k, [{ key: k, value: v.value }]])) };
      }
      const l = this.lambda(b, "viewer-response");
      if (l) {
        log.push("viewer-response");
        answer = { ...(await l(ev({ request: cur, response: answer }))), from: answer.from };
      }
    }
    return { behavior: b, origin: this.origins.get(b.TargetOriginId), originReq, answer, log };
  }
}
export { CF, libPackage };

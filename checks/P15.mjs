import { lib } from "../harness/hooks.mjs";
import { build, inScratch, cdk, cdkMod, inlineFunction } from "../harness/infra.mjs";
import { target, text, iamMatch } from "../harness/cfn.mjs";
import { inCidr } from "../harness/waf.mjs";

const ra = await lib("aws/infra/stack/rest-api.ts");
const up = await lib("aws/infra/usage-plans.ts");
const doc = await lib("aws/infra/documentation.ts");
const model = await lib("utils/api-model.ts");
const apigw = cdkMod("aws-apigateway");

const PARTS = ["api", "v1", "beta", "sites", "counts", "messages", "{id}", "data.json", "foo-bar"];
const WORDS = ["Fishing", "Port call", "äö", 'with "quotes"', "back\\slash", "dollar $ref", "line\nbreak", "{brace}", "a.b"];

/** the subset of JSON schema the library's schemas use */
function valid(s, v) {
  const type = (t) => ({ object: v !== null && typeof v === "object" && !Array.isArray(v), array: Array.isArray(v), string: typeof v === "string", number: typeof v === "number", boolean: typeof v === "boolean" })[t];
  if (s.type && !type(s.type)) return false;
  if (s.enum && !s.enum.includes(v)) return false;
  if (s.required && s.required.some((k) => !(k in v))) return false;
  for (const [k, p] of Object.entries(s.properties ?? {})) if (k in v && !valid(p, v[k])) return false;
  if (s.items && Array.isArray(v) && !v.every((x) => valid(s.items, x))) return false;
  return true;
}

export default {
  id: "P15",
  rule: "A case is one random stack of REST APIs (address restriction, CORS subtrees, methods, keys, exports, models, documentation), synthesized; a simulated client then asks the template who may call, which paths answer preflight and what missing paths and credentials answer; non-trivial when an API was judged.",
  assumptions: ["API Gateway resource policies are evaluated as documented (allow statements with IpAddress conditions); gateway responses replace the service's own."],
  async run(ctx) {
    ctx.require("apis", 60);
    ctx.require("policy-decisions", 500);
    ctx.require("preflights", 100);
    ctx.require("keys", 40);
    ctx.require("exports", 20);
    ctx.require("refused-exports", 10);
    ctx.require("documented", 50);
    ctx.require("models", 50);
    await inScratch(() => {
      for (let i = 0; i < ctx.n(80, 700); i++) one(ctx, ctx.rng, i);
    });
    schemas(ctx, ctx.rng);
  },
};

const IPS = ["10.0.0.0/8", "192.168.1.1/32", "1.2.3.4", "193.166.0.0/16", "2001:db8::/32", "8.8.8.0/24"];
const CLIENTS = ["10.1.2.3", "192.168.1.1", "192.168.1.2", "1.2.3.4", "1.2.3.5", "193.166.77.1", "8.8.8.8", "8.8.9.8", "2001:db8::1"];
function policyAllows(policy, ip) {
  let ok = false;
  for (const st of policy?.Statement ?? []) {
    const prin = st.Principal === "*" || st.Principal?.AWS === "*";
    if (!prin || ![].concat(st.Action).some((a) => iamMatch(a, "execute-api:Invoke"))) continue;
    if (![].concat(st.Resource).some((r) => iamMatch(text(r), "arn:aws:execute-api:eu-west-1:1:abc/prod/GET/x"))) continue;
    let m = true;
    for (const [op, c] of Object.entries(st.Condition ?? {})) {
      const list = [].concat(c["aws:SourceIp"] ?? []);
      const hit = list.some((r) => (r.includes(":") === ip.includes(":") ? cidr(ip, r) : false));
      if (op === "IpAddress") m &&= hit;
      else if (op === "NotIpAddress") m &&= !hit;
      else m = false;
    }
    if (!m) continue;
    if (st.Effect === "Deny") return false;
    ok = true;
  }
  return ok;
}
const cidr = (ip, r) => inCidr(ip, r.includes("/") ? r : r + (r.includes(":") ? "/128" : "/32"));

function one(ctx, rng, i) {
  const features = rng.pick([undefined, {}, { enableDocumentation: true }, { enableDocumentation: false }, { enableDocumentation: undefined }]);
  const documented = features?.enableDocumentation !== false;
  const shortName = rng.pick(["Tst", "MyApp"]);
  const apis = [];
  const w0 = { features, shortName };
  const quiet = console.info;
  console.info = () => {};
  let cfn;
  const r = ctx.attemptSync(() => {
    cfn = build((stack) => {
      const fn = inlineFunction(stack);
      for (let k = 0; k < rng.int(1, 2); k++) apis.push(makeApi(ctx, rng, stack, fn, k, { documented, shortName }));
    }, { shortName, stackFeatures: features });
  });
  console.info = quiet;
  if (!ctx.expect(r.ok, "synth", "a valid API stack was refused", () => ({ ...w0, apis: apis.map((a) => a.log), error: r.error?.stack }))) return;
  const plansOf = (id) => cfn.of("AWS::ApiGateway::UsagePlan").filter(([, p]) => (p.Properties.ApiStages ?? []).some((s) => target(s.ApiId) === id));
  for (const a of apis) {
    const w = () => ({ ...w0, log: a.log });
    const hit = cfn.find("AWS::ApiGateway::RestApi", (p) => p.Name === a.name);
    if (!ctx.expect(!!hit, "api", "the API is missing", w)) continue;
    ctx.observe("apis");
    const [id, { Properties: P }] = hit;
    ctx.case([a.log, features, shortName], true, a.log);
    ctx.equal(P.EndpointConfiguration?.Types, a.endpoint, "endpoint-type", "the API is not of the endpoint type asked for", w);
    for (const c of CLIENTS) {
      const want = a.overridePolicy ? c === "1.2.3.4" : a.ips === undefined || a.ips.some((x) => (x.includes(":") === c.includes(":")) && cidr(c, x));
      ctx.observe("policy-decisions");
      ctx.expect(policyAllows(P.Policy, c) === want, want ? "policy-denies" : "policy-allows", `the API ${want ? "denies" : "allows"} a client address wrongly`, () => ({ ...w(), client: c, policy: P.Policy }));
    }
    const stages = cfn.of("AWS::ApiGateway::Stage").filter(([, s]) => target(s.Properties.RestApiId) === id);
    ctx.expect(stages.length === 1, "stage", "the API has no single deployed stage", w);
    if (!a.overrideDeploy) ctx.expect((stages[0]?.[1].Properties.MethodSettings ?? []).some((m) => m.LoggingLevel === "ERROR" && m.HttpMethod === "*" && m.ResourcePath === "/*"), "stage-logging", "the API stage does not log errors", () => ({ ...w(), stage: stages[0] }));
    // resources by path
    const res = Object.fromEntries(cfn.of("AWS::ApiGateway::Resource").filter(([, x]) => target(x.Properties.RestApiId) === id).map(([rid, x]) => [rid, x.Properties]));
    const pathOf = (rid) => (res[rid] ? pathOf(target(res[rid].ParentId)).replace(/\/$/, "") + "/" + res[rid].PathPart : "/");
    const methods = new Map();
    for (const [, m] of cfn.of("AWS::ApiGateway::Method")) if (target(m.Properties.RestApiId) === id) methods.set(m.Properties.HttpMethod + " " + pathOf(target(m.Properties.ResourceId)), m.Properties);
    for (const n of a.nodes) {
      const o = methods.get("OPTIONS " + n.path);
      ctx.observe("preflights");
      if (!n.cors) {
        ctx.expect(!o, "preflight-extra", "a path answers preflight requests though not asked to", () => ({ ...w(), path: n.path }));
      } else if (ctx.expect(!!o, "preflight-missing", "a path in a CORS subtree does not answer preflight requests", () => ({ ...w(), path: n.path }))) {
        const rp = o.Integration.IntegrationResponses?.[0]?.ResponseParameters ?? {};
        const h = (x) => String(rp["method.response.header.Access-Control-Allow-" + x] ?? "").replace(/^'|'$/g, "");
        const list = (x) => h(x).toLowerCase().split(",").map((y) => y.trim()).sort();
        ctx.expect(o.Integration.Type === "MOCK" && !o.ApiKeyRequired && ["NONE", undefined].includes(o.AuthorizationType), "preflight-open", "preflight requests need credentials", () => ({ ...w(), path: n.path, o }));
        ctx.equal([h("Origin"), list("Methods"), list("Headers")], [n.cors.origin, n.cors.methods, n.cors.headers], "preflight-answer", "the preflight answer does not allow what it should", () => ({ ...w(), path: n.path }));
      }
    }
    // missing path / credentials
    const gw = (t) => cfn.props("AWS::ApiGateway::GatewayResponse").filter((g) => target(g.RestApiId) === id && g.ResponseType === t);
    const missing = gw("MISSING_AUTHENTICATION_TOKEN");
    ctx.expect(missing.length === 1 && String(missing[0].StatusCode) === String(a.missing.code), "missing-path-status", "a request to a path that does not exist is not answered with the status asked for", () => ({ ...w(), missing }));
    const body = ctx.attemptSync(() => JSON.parse(missing[0].ResponseTemplates["application/json"]));
    ctx.equal(body.value, { message: a.missing.message }, "missing-path-body", "the answer for a path that does not exist is not the JSON message", () => ({ ...w(), missing }));
    const un = gw("UNAUTHORIZED");
    if (a.with401) {
      ctx.expect(un.length === 1 && String(un[0].StatusCode) === "401" && un[0].ResponseParameters?.["gatewayresponse.header.WWW-Authenticate"] === "'Basic'", "unauthorized", "an unauthorized client is not asked for basic authentication", () => ({ ...w(), un }));
    } else ctx.expect(un.length === 0, "unauthorized-extra", "an authentication challenge nobody asked for", w);
    // keys and usage plans
    const plans = plansOf(id);
    ctx.expect(plans.length === a.keys.length, "plans", "number of usage plans does not match", () => ({ ...w(), plans }));
    for (const key of a.keys) {
      ctx.observe("keys");
      const p = plans.find(([, x]) => x.Properties.UsagePlanName === key.plan);
      if (!ctx.expect(!!p, "plan-name", "a usage plan is missing", () => ({ ...w(), plan: key.plan, plans }))) continue;
      ctx.expect(p[1].Properties.ApiStages.length === 1 && target(p[1].Properties.ApiStages[0].Stage) === stages[0]?.[0], "plan-stage", "the usage plan does not cover the deployed stage of its API", () => ({ ...w(), p }));
      const kid = key.logicalId;
      const links = cfn.props("AWS::ApiGateway::UsagePlanKey").filter((x) => target(x.UsagePlanId) === p[0]);
      const actual = cfn.byId(target(links[0]?.KeyId));
      ctx.expect(links.length === 1 && target(links[0].KeyId) === kid && actual?.Type === "AWS::ApiGateway::ApiKey", "plan-key", "the usage plan does not have exactly the returned key", () => ({ ...w(), links, kid }));
      ctx.expect(actual?.Properties.Enabled === true, "key-enabled", "an API key is not enabled", w);
      if (key.keyName) ctx.expect(actual?.Properties.Name === key.keyName, "key-name", "an API key does not have its name", () => ({ ...w(), actual }));
      ctx.expect(actual?.Properties.Value === key.value, "key-value", "an API key does not have the value asked for", () => ({ ...w(), actual }));
    }
    const params = cfn.props("AWS::SSM::Parameter").filter((p) => p.Name.startsWith(`/digitraffic/`));
    for (const e of a.exports) {
      ctx.observe("exports");
      const url = params.find((p) => p.Name === `/digitraffic/${e.name}/endpointUrl`);
      const key = params.find((p) => p.Name === `/digitraffic/${e.name}/apiKeyId`);
      ctx.expect(url && text(url.Value).includes("${" + id + "}") && text(url.Value).includes("${" + stages[0]?.[0] + "}") && /^https:\/\//.test(text(url.Value)), "export-url", "the exported endpoint is not the API's own address", () => ({ ...w(), url }));
      ctx.expect(key && (e.given ? key.Value === e.given : target(key.Value) === e.logicalId), "export-key", "the exported key is not the right one", () => ({ ...w(), key, e }));
    }
    for (const m of a.models) {
      ctx.observe("models");
      const x = cfn.find("AWS::ApiGateway::Model", (p) => target(p.RestApiId) === id && p.Name === m.name);
      if (!ctx.expect(!!x, "model", "a model is missing", () => ({ ...w(), m: m.name }))) continue;
      ctx.expect(x[1].Properties.ContentType === m.contentType, "model-type", "a model has the wrong content type", () => ({ ...w(), x }));
      const { $schema, ...rest } = x[1].Properties.Schema ?? {};
      ctx.equal(rest, m.schema, "model-schema", "a model does not have the schema given", () => ({ ...w(), m: m.name }));
      if (m.reference !== undefined) ctx.expect(m.reference === "https://apigateway.amazonaws.com/restapis/${" + id + "}/models/${" + x[0] + "}", "model-reference", "a model's reference does not point to the model", () => ({ ...w(), ref: m.reference, id: x[0] }));
    }
    const parts = cfn.props("AWS::ApiGateway::DocumentationPart").filter((p) => target(p.RestApiId) === id);
    ctx.expect(parts.length === a.docs.length, "documentation-count", "number of documented parts does not match", () => ({ ...w(), got: parts.length, want: a.docs.length }));
    for (const d of a.docs) {
      ctx.observe("documented");
      const same = parts.filter((p) => p.Location.Type === d.type && p.Location.Path === d.path && p.Location.Name === d.name);
      const got = same.map((p) => JSON.parse(p.Properties));
      ctx.expect(got.some((g) => JSON.stringify(Object.entries(g).sort()) === JSON.stringify(Object.entries(d.properties).sort())), "documentation", "a documented part does not carry its text at its location", () => ({ ...w(), d, got }));
    }
  }
}

function makeApi(ctx, rng, stack, fn, k, { documented, shortName }) {
  const plain = rng.bool(0.2);
  const name = `api-${k}-${rng.word(2, 6)}`;
  const a = { name, nodes: [], keys: [], exports: [], models: [], docs: [], log: [], missing: { code: 404, message: "Not Found" }, endpoint: ["REGIONAL"] };
  const log = (...x) => a.log.push(x);
  a.ips = rng.pick([undefined, undefined, [], rng.subset(IPS), rng.subset(IPS)]);
  let config;
  if (!plain && rng.bool(0.3)) {
    config = {};
    if (rng.bool(0.4)) { config.endpointTypes = [apigw.EndpointType.EDGE]; a.endpoint = ["EDGE"]; }
    if (rng.bool(0.4)) { config.deployOptions = { loggingLevel: apigw.MethodLoggingLevel.INFO }; a.overrideDeploy = true; }
    if (rng.bool(0.3)) { config.policy = ra.createIpRestrictionPolicyDocument(["1.2.3.4"]); a.overridePolicy = true; }
    if (rng.bool(0.3)) config.description = "d";
  }
  log("new", plain, a.ips, config && Object.keys(config));
  const api = plain && rng.bool(0.6) ? ra.createRestApi(stack, "Api" + k, name, a.ips) : undefined;
  let rest = api;
  if (!api) {
    if (plain) {
      // a bare API with a custom answer for missing paths
      rest = new apigw.RestApi(stack, "Api" + k, { restApiName: name, endpointTypes: [apigw.EndpointType.REGIONAL], policy: a.ips ? ra.createIpRestrictionPolicyDocument(a.ips) : ra.createDefaultPolicyDocument() });
      a.overrideDeploy = true;
      a.missing = { code: rng.pick([400, 403, 404, 410]), message: rng.pick(WORDS) };
      ra.setReturnCodeForMissingAuthenticationToken(a.missing.code, a.missing.message, rest, stack);
      log("missing", a.missing);
    } else rest = new ra.DigitrafficRestApi(stack, "Api" + k, name, a.ips, config);
  }
  if (rng.bool(0.3)) { ra.add401Support(rest, stack); a.with401 = true; }
  rest.root.addMethod("GET", new apigw.LambdaIntegration(fn));
  // resource tree
  const PUBLIC = { origin: "*", methods: ["get", "head", "options"], headers: ["authorization", "content-type", "digitraffic-user", "x-amz-date", "x-amz-security-token", "x-api-key"] };
  const nodes = [{ r: rest.root, path: "/", cors: undefined, inherit: undefined }];
  a.nodes = nodes.map((n) => n);
  const used = new Set();
  for (let j = 0; j < rng.int(1, 7); j++) {
    const parent = rng.pick(nodes);
    const part = rng.pick(PARTS);
    const path = parent.path.replace(/\/$/, "") + "/" + part;
    if (used.has(path) || (part === "{id}" && nodes.some((n) => n.path.startsWith(parent.path) && n.path.includes("{id}")))) continue;
    used.add(path);
    const mode = plain ? 0 : rng.int(0, 3);
    const n = { path, cors: parent.inherit, inherit: parent.inherit };
    if (mode === 1) {
      const own = rng.bool(0.25);
      n.r = rest.addResourceWithCorsOptionsSubTree(parent.r, part, own ? { defaultCorsPreflightOptions: { allowOrigins: ["https://x.fi"], allowMethods: ["GET"], allowHeaders: ["A"] } } : rng.pick([undefined, {}]));
      n.cors = n.inherit = own ? { origin: "https://x.fi", methods: ["get"], headers: ["a"] } : PUBLIC;
    } else {
      n.r = parent.r.addResource(part);
      if (mode === 2 && !n.cors) {
        rest.addCorsOptions(n.r);
        n.cors = PUBLIC;
      }
    }
    log("resource", path, mode);
    if (rng.bool(0.6)) n.r.addMethod("GET", new apigw.LambdaIntegration(fn));
    nodes.push(n);
  }
  a.nodes = nodes;
  // keys: logical ids are only known after synthesis, the tokens are resolved now
  const resolveId = (id) => target(stack.resolve(id));
  const K = rng.pick([0, 0, 1, 1, 2, 3]);
  for (let j = 0; j < K; j++) {
    const nm = `Plan ${k}${j} ${rng.word(1, 4)}`;
    const mode = rng.int(0, 1);
    const value = mode === 1 && rng.bool(0.4) ? "value-of-at-least-20-chars" + j : undefined;
    let id;
    if (plain) id = (mode ? up.createDefaultUsagePlan(rest, nm, value) : up.createUsagePlan(rest, "key" + j, nm)).keyId;
    else id = mode ? rest.createUsagePlanV2(nm, value) : rest.createUsagePlan("key" + j, nm);
    a.keys.push({ plan: mode ? `${nm} API Usage Plan` : nm, keyName: mode ? `${nm} API Key` : undefined, value, logicalId: resolveId(id), id });
    log("key", mode, nm, value);
  }
  if (!plain) {
    ctx.equal(rest.apiKeyIds, a.keys.map((x) => x.id), "api-key-ids", "the API does not know exactly its own keys", () => a.log);
    for (let j = 0; j < rng.int(0, 2); j++) {
      const p = rng.pick([undefined, {}, { exportName: `n${k}${j}` }, { apiKeyId: "given-key" }, { apiKeyId: a.keys.at(-1)?.id ?? "given", exportName: `m${k}${j}` }]);
      if (p?.exportName === undefined && (k > 0 || a.exports.some((e) => e.name === shortName))) continue;
      const must = p?.apiKeyId || a.keys.length === 1;
      const r = ctx.attemptSync(() => (p === undefined ? rest.exportEndpoint() : rest.exportEndpoint(p)));
      log("export", p, must);
      if (!must) ctx.observe("refused-exports");
      if (!ctx.expect(r.ok === !!must, must ? "export-refused" : "export-ambiguous", must ? "a valid export was refused" : "an export without a single key was accepted", () => a.log)) continue;
      if (must) {
        const t = p?.apiKeyId ?? a.keys[0].id;
        const logicalId = resolveId(t);
        a.exports.push({ name: p?.exportName ?? shortName, logicalId, given: logicalId ? undefined : t });
      }
    }
    for (let j = 0; j < rng.int(0, 3); j++) {
      const nm = `Model${k}${j}`;
      const schema = rng.pick([{ type: "object", properties: { a: { type: "string" } } }, { type: "array", items: { type: "number" } }, { type: "object", required: ["x"], description: rng.pick(WORDS) }]);
      const via = rng.int(0, 3);
      if (via === 0) { const m = rest.addJsonModel(nm, schema); a.models.push({ name: nm, contentType: "application/json", schema, reference: text(stack.resolve(m.modelReference)) }); }
      else if (via === 1) { const m = rest.addCSVModel(nm); a.models.push({ name: nm, contentType: "text/csv", schema: {}, reference: text(stack.resolve(m.modelReference)) }); }
      else if (via === 2) { const m = model.addServiceModel(nm, rest, schema); a.models.push({ name: nm, contentType: "application/json", schema, reference: text(stack.resolve(m.modelReference)) });
        const arr = model.createArraySchema(m, rest);
        ctx.equal([arr.type, stack.resolve(arr.items.ref)], ["array", stack.resolve(m.modelReference)], "array-schema", "an array schema does not describe arrays of the model");
      } else { const ct = rng.pick([undefined, "text/plain"]); model.addSimpleServiceModel(nm, rest, ct); a.models.push({ name: nm, contentType: ct ?? "application/xml", schema: {} }); }
      log("model", nm, via);
    }
    for (const n of nodes.slice(1)) {
      const ds = [];
      for (const nm of rng.shuffle(["p1", "p2", "m"]).slice(0, rng.int(0, 3))) {
        const d = rng.pick(WORDS), sum = rng.pick(WORDS), tags = rng.subset(["t1", "t2"]);
        const t = nm === "m" ? 2 : rng.int(0, 1);
        const part = [() => doc.DocumentationPart.queryParameter(nm, d), () => doc.DocumentationPart.pathParameter(nm, d), () => doc.DocumentationPart.method(tags, nm, sum)][t]();
        const properties = t === 2 ? { tags, summary: sum } : { description: d };
        if (rng.bool(0.3)) {
          const note = "Will be removed";
          part.deprecated(note);
          properties.deprecated = true;
          properties.summary = properties.summary ? `${properties.summary}. ${note}` : note;
        }
        ds.push(part);
        if (documented) a.docs.push({ type: ["QUERY_PARAMETER", "PATH_PARAMETER", "METHOD"][t], path: n.path, name: t === 2 ? undefined : nm, properties });
      }
      // construct ids are made of the path: one API documents a path once
      if (ds.length && k === 0) rest.documentResource(n.r, ...ds);
      else if (documented) a.docs.splice(a.docs.length - ds.length, ds.length);
    }
  } else if (rng.bool()) {
    const n = nodes.at(-1), d = rng.pick(WORDS), s = rng.pick(WORDS);
    doc.addQueryParameterDescription("q" + k, d, n.r, stack);
    a.docs.push({ type: "QUERY_PARAMETER", path: n.path, name: "q" + k, properties: { description: d } });
    doc.addTags("Tags" + k, ["t"], n.r, stack);
    a.docs.push({ type: "METHOD", path: n.path, name: undefined, properties: { tags: ["t"] } });
    doc.addTagsAndSummary("TagsS" + k, ["t"], s, n.r, stack);
    a.docs.push({ type: "METHOD", path: n.path, name: undefined, properties: { tags: ["t"], summary: s } });
  }
  void cdk;
  return a;
}

function schemas(ctx, rng) {
  for (let i = 0; i < ctx.n(200, 2000); i++) {
    const ref = "https://apigateway.amazonaws.com/restapis/" + rng.word(2, 6) + "/models/" + rng.word(2, 6);
    const f = model.featureSchema(ref), g = model.geojsonSchema(ref);
    ctx.equal([f.properties.properties.ref, g.properties.features.items.ref], [ref, ref], "schema-ref", "a GeoJSON schema does not refer to the given model");
    const feature = { type: "Feature", properties: {}, geometry: { type: "Point", coordinates: [1, 2] } };
    const coll = { type: "FeatureCollection", features: [] };
    const broken = (o) => {
      const c = structuredClone(o);
      const k = rng.pick(Object.keys(c));
      if (rng.bool()) delete c[k];
      else c[k] = rng.pick([k === "properties" ? undefined : 1, "Nope"]) ?? delete c[k];
      if (k === "properties" && k in c) delete c[k];
      return c;
    };
    ctx.expect(valid(f, feature) && valid(g, coll), "schema-accepts", "a GeoJSON schema rejects valid GeoJSON", () => ({ f, g }));
    const bf = broken(feature), bc = broken(coll);
    ctx.expect(!valid(f, bf), "schema-feature", "the feature schema accepts something that is not a feature", () => ({ f, bf }));
    ctx.expect(!valid(g, bc), "schema-collection", "the collection schema accepts something that is not a collection", () => ({ g, bc }));
    ctx.observe("schemas");
  }
}

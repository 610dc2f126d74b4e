import http from "node:http";
import vm from "node:vm";
import { repo } from "../harness/hooks.mjs";
import { FakeAws } from "../harness/fakeaws.mjs";

const METHODS = ["get", "post", "put", "delete", "patch", "head", "options"];
const HIDDEN = ["head", "options"];
const ENV = ["BUCKET_NAME", "REGION", "APP_URL", "APP_BETA_URL", "APIGW_APPS", "DIRECTORY", "HOST", "TITLE", "DESCRIPTION", "TERMS_OF_SERVICE", "CONTACT_NAME", "CONTACT_URL", "LICENSE_NAME", "LICENSE_URL", "REMOVESECURITY", "APIGW_IDS"];

export default {
  id: "P22",
  rule: "A case is one run of a real description-publishing handler against stand-in services (gateway exports, applications, bucket) with random descriptions, configuration and faults; non-trivial when something was published or a fault was injected.",
  assumptions: ["A published operation is one the viewer can find in the description by path and method; header and options operations are internal by the repository's own rule."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ published: 40, operations: 250, tags: 150, deprecated: 40, nullable: 60, faults: 12, scripts: 40, "doc-versions": 60, "valid-documents": 50 })) ctx.require(k, n);
    const aws = await new FakeAws().start();
    const apps = http.createServer((q, r) => {
      const a = apps.answers[q.url];
      apps.log.push([q.url, q.headers["accept-encoding"]]);
      r.writeHead(a?.status ?? 200, { "content-type": "application/json" });
      r.end(a?.body ?? "");
    });
    await new Promise((r) => apps.listen(0, "127.0.0.1", r));
    process.env.AWS_REGION = "eu-west-1";
    process.env.AWS_ACCESS_KEY_ID = "x";
    process.env.AWS_SECRET_ACCESS_KEY = "y";
    try {
      for (let i = 0; i < ctx.n(120, 900); i++) await publish(ctx, ctx.rng, aws, apps);
      for (let i = 0; i < ctx.n(60, 300); i++) await versions(ctx, ctx.rng, aws);
      await documents(ctx, ctx.rng);
    } finally {
      for (const k of ENV) delete process.env[k];
      await aws.stop();
      apps.closeAllConnections();
      await new Promise((r) => apps.close(r));
    }
  },
};

function operation(rng, marks) {
  const op = { summary: "Sum " + rng.word(2, 6), description: rng.text(20), operationId: rng.word(3, 8), parameters: rng.array(rng.int(0, 2), () => ({ name: rng.word(1, 5), in: rng.pick(["query", "header"]), required: rng.bool(), schema: { type: "string" } })), responses: { 200: { description: "ok", content: { "application/json": { schema: { $ref: "#/components/schemas/X" } } } } } };
  if (rng.bool(0.4)) op.tags = [rng.pick(marks.tags)];
  if (rng.bool(0.4)) op.security = [{ api_key: [] }];
  if (rng.bool(0.2)) op.requestBody = { content: { "application/json": { schema: nullable(rng, marks) } } };
  const d = rng.int(0, 9);
  let deprecated = false;
  if (d === 0) { op.summary += " (Will be removed after 2024-01-01)"; deprecated = true; }
  if (d === 1) { op.responses[200].headers = rng.bool() ? { Deprecation: { schema: {} }, Sunset: { schema: {} } } : { Sunset: { schema: {} }, Deprecation: { schema: {} } }; deprecated = true; }
  if (d === 2) { op.deprecated = true; deprecated = true; }
  if (d === 3) op.responses[200].headers = { ETag: { schema: {} } };
  return [op, deprecated];
}

/** a schema as the gateway exports it, and as it was meant */
function nullable(rng, marks, depth = 0) {
  const inner = { type: rng.pick(["string", "number"]), description: rng.word(2, 5) };
  const kind = depth < 2 ? rng.int(0, 9) : 9;
  if (kind === 0) Object.assign(inner, { type: "object", properties: { x: nullable(rng, marks, depth + 1), y: nullable(rng, marks, depth + 1) }, required: ["x"] });
  if (kind === 1) Object.assign(inner, { type: "array", items: nullable(rng, marks, depth + 1) });
  if (kind === 2) return { anyOf: [{ type: "string", enum: ["a", "b"] }, nullable(rng, marks, depth + 1)] };
  if (kind === 3) return { title: rng.word(2, 4), [rng.pick(["anyOf", "oneOf"])]: rng.shuffle([{ $ref: "#/components/schemas/X" }, null]) };
  if (rng.bool()) return inner;
  const key = rng.pick(["anyOf", "oneOf"]);
  marks.nullables++;
  return { title: rng.word(2, 4), [key]: rng.shuffle([inner, null]) };
}
/** what a gateway export means */
function mend(x) {
  if (Array.isArray(x)) return x.map(mend);
  if (!x || typeof x !== "object") return x;
  const o = {};
  for (const [k, v] of Object.entries(x)) {
    if ((k === "anyOf" || k === "oneOf") && Array.isArray(v) && v.length === 2 && v.filter((e) => e === null).length === 1) {
      Object.assign(o, mend(v.find((e) => e !== null)), { nullable: true });
    } else o[k] = mend(v);
  }
  return o;
}

function description(rng, name, gateway, marks) {
  const paths = {};
  for (let i = 0; i < rng.int(0, 4); i++) {
    const p = `/api/${name}/v${i}/${rng.word(2, 5)}${rng.pick(["", "/{id}"])}`;
    paths[p] = {};
    if (rng.bool(0.2)) paths[p].summary = "path " + name;
    for (const m of rng.subset(METHODS, 0.35)) {
      const [op, dep] = operation(rng, marks);
      if (!gateway) op.tags ??= [rng.pick(marks.tags)];
      paths[p][m] = op;
      marks.ops.push({ p, m, op: gateway ? mend(op) : op, dep, name });
    }
  }
  const tags = rng.subset(marks.tags, 0.6).map((t) => ({ name: t, description: `about ${t}` }));
  const d = { openapi: rng.pick(["3.0.1", "3.0.3"]), info: { title: "T-" + name, version: "v-" + name, description: "D-" + name }, paths };
  if (rng.bool(0.7)) d.servers = [{ url: "https://" + name, variables: { basePath: { default: "/prod" } } }];
  if (rng.bool(0.5)) d.security = [{ api_key: [] }];
  if (tags.length || rng.bool()) d.tags = tags;
  if (rng.bool(0.8)) {
    d.components = { schemas: { ["S" + name]: { type: "object", properties: { a: nullable(rng, marks), b: { type: "array", items: nullable(rng, marks) } } } } };
    if (rng.bool(0.6)) d.components.securitySchemes = { ["key-" + name]: { type: "apiKey", name: "x-api-key", in: "header" } };
  }
  return d;
}

async function publish(ctx, rng, aws, apps) {
  const bucket = "swagger-" + rng.digits(9); // a late upload of an earlier run is not ours
  const marks = { ops: [], tags: ["A", "B", "C", "D"].map((t) => t + rng.word(1, 2)), nullables: 0 };
  const ids = rng.array(rng.int(0, 3), (i) => `api${i}`);
  const app = rng.bool(0.7);
  const beta = rng.bool(0.4);
  const names = [...(beta ? ["beta"] : []), ...ids, ...(app ? ["app"] : [])];
  const docs = Object.fromEntries(names.map((n) => [n, description(rng, n, n.startsWith("api"), marks)]));
  const base = `http://127.0.0.1:${apps.address().port}`;
  const env = { BUCKET_NAME: bucket, REGION: "eu-west-1", APIGW_APPS: JSON.stringify(ids) };
  if (app) env.APP_URL = base + "/app";
  if (beta) env.APP_BETA_URL = base + "/beta";
  for (const k of ["DIRECTORY", "HOST", "TITLE", "DESCRIPTION", "TERMS_OF_SERVICE", "CONTACT_NAME", "CONTACT_URL", "LICENSE_NAME", "LICENSE_URL"]) if (rng.bool(0.5)) env[k] = k.toLowerCase() + "-" + rng.word(2, 4);
  if (rng.bool(0.4)) env.REMOVESECURITY = "true";
  const fault = names.length ? rng.maybe(() => rng.pick(["source", "source", "content", "upload"]), 0.25) : undefined;
  const victim = names.length ? rng.pick(names) : undefined;
  apps.answers = {};
  apps.log = [];
  for (const n of ["app", "beta"]) if (docs[n]) apps.answers["/" + n] = { body: JSON.stringify(docs[n]) };
  const broken = rng.pick(["{}", "no json", JSON.stringify({ openapi: "2.0", info: { title: "x", version: "1" }, paths: {} })]);
  if (fault === "content" && apps.answers["/" + victim]) apps.answers["/" + victim].body = broken;
  if (fault === "source" && apps.answers["/" + victim]) apps.answers["/" + victim].status = 404;
  const puts = [];
  let failPut = fault === "upload" ? rng.int(0, 1) : -1;
  aws.handle = async (r) => {
    const m = /^\/restapis\/([^/]+)\/stages\/prod\/exports\/oas30/.exec(r.path);
    if (m) {
      if (fault === "source" && m[1] === victim) return { status: 404, body: JSON.stringify({ message: "no" }), headers: { "x-amzn-errortype": "NotFoundException" } };
      return { body: fault === "content" && m[1] === victim ? broken : JSON.stringify(docs[m[1]], null, 2), headers: { "content-type": "application/json" } };
    }
    if (r.method === "PUT" && r.path.startsWith(`/${bucket}/`)) {
      if (failPut-- === 0) return { status: 403, body: "<Error><Code>AccessDenied</Code></Error>", headers: { "content-type": "application/xml" } };
      puts.push({ path: r.path, body: unchunk(r), type: r.headers["content-type"], acl: r.headers["x-amz-acl"] });
      return { body: "", headers: { etag: '"x"' } };
    }
    return { status: 500 };
  };
  for (const k of ENV) delete process.env[k];
  Object.assign(process.env, env);
  const { handler } = await repo("other/swagger-joiner/src/lambda/update-swagger/lambda-update-swagger.ts", { isolated: true });
  const r = await ctx.attempt(() => handler());
  const w = () => ({ names, env, fault, victim, error: r.ok ? undefined : String(r.error?.stack).slice(0, 600), puts: puts.map((p) => p.path) });
  ctx.case({ names, env, fault, victim, ops: marks.ops.length });
  if (!names.length || fault) {
    if (fault) ctx.observe("faults");
    ctx.expect(!r.ok, "fault-hidden", "a failure was not reported: " + fault, w);
    if (fault !== "upload") ctx.expect(!puts.length, "partial", "an incomplete description was published", w);
    return;
  }
  if (!ctx.expect(r.ok, "failed", "publishing valid descriptions failed", w)) return;
  ctx.observe("published");
  const dir = env.DIRECTORY ? env.DIRECTORY + "/" : "";
  const find = (f) => puts.filter((p) => p.path === `/${bucket}/${dir}${f}`);
  const [spec, script] = [find("openapi.json"), find("dt-swagger.js")];
  if (!ctx.expect(spec.length === 1 && script.length === 1 && puts.length === 2, "files", "not exactly the two files were published in the configured directory", w)) return;
  ctx.equal([spec[0].type, spec[0].acl], ["application/json", "private"], "spec-type", "the description's type or access is wrong", w);
  const out = JSON.parse(spec[0].body);
  // the page shows the same description
  ctx.observe("scripts");
  for (const q of ["", "?x=1", ...rng.subset(["?url=https://evil", "?spec=x", "?urls=x", "?configUrl=x", "?a=b&url=y"], 0.4)]) {
    let shown;
    const el = { innerHTML: "" };
    const b = (o) => ((shown = o), {});
    b.presets = { apis: 1 };
    b.plugins = { DownloadUrl: 1 };
    const window = { location: { search: q } };
    const e = ctx.attemptSync(() => {
      vm.runInNewContext(script[0].body, { window, document: { querySelector: () => el }, URLSearchParams, SwaggerUIBundle: b, SwaggerUIStandalonePreset: [1, 2] });
      window.onload?.();
    });
    const hostile = /[?&](url|spec|urls|configUrl)=/.test(q);
    ctx.expect(e.ok && (hostile ? !shown && /not supported/.test(el.innerHTML) : shown && JSON.stringify(shown.spec) === JSON.stringify(out)), hostile ? "foreign-spec" : "page", hostile ? "the page accepts a description from its address" : "the page does not show the published description", () => ({ q, error: e.error?.stack, ...w() }));
    if (shown) ctx.equal(shown.requestInterceptor({ url: "u" }).curlOptions?.includes("--compressed"), true, "curl", "example requests lack compression", w);
  }
  // every operation is there, as it was described
  const want = new Set();
  for (const o of marks.ops) {
    const got = out.paths[o.p]?.[o.m];
    if (HIDDEN.includes(o.m)) {
      ctx.expect(got === undefined, "hidden", "an internal operation was published", () => ({ ...w(), o }));
      continue;
    }
    ctx.observe("operations");
    want.add(o.p);
    const exp = structuredClone(o.op);
    if (env.REMOVESECURITY) delete exp.security;
    if (o.dep) { ctx.observe("deprecated"); exp.deprecated = true; }
    ctx.equal(norm(got), norm(exp), "operation", "an operation is not described as its source describes it", () => ({ ...w(), p: o.p, m: o.m }));
  }
  ctx.equal(Object.keys(out.paths).sort(), [...want].sort(), "paths", "the description has other paths than its sources", w);
  ctx.observe("nullable", marks.nullables);
  for (const [n, d] of Object.entries(docs)) {
    for (const [k, v] of Object.entries(d.components?.schemas ?? {})) ctx.equal(norm(out.components?.schemas?.[k]), norm(n.startsWith("api") ? mend(v) : v), "schema", "a schema was lost or changed", () => ({ ...w(), k }));
    for (const [k, v] of Object.entries(d.components?.securitySchemes ?? {})) ctx.equal(norm(out.components?.securitySchemes?.[k]), env.REMOVESECURITY ? undefined : norm(v), "security-scheme", "a security scheme was lost or is shown although security is removed", w);
    for (const t of d.tags ?? []) {
      ctx.observe("tags");
      ctx.equal(out.tags?.filter((x) => x.name === t.name), [t], "tag", "a tag of a source is missing, repeated or described otherwise", () => ({ ...w(), n, tags: out.tags, all: Object.values(docs).map((x) => x.tags) }));
    }
  }
  // the publisher's own settings
  const last = docs[names.at(-1)];
  ctx.equal(out.servers, env.HOST ? [{ url: env.HOST }] : undefined, "servers", "the servers shown are not the public address", w);
  ctx.equal(out.security, undefined, "security", "security of one source was applied to all", w);
  ctx.equal([out.info.title, out.info.description, out.info.termsOfService], [env.TITLE ?? last.info.title, env.DESCRIPTION ?? last.info.description, env.TERMS_OF_SERVICE], "info", "title, description or terms are wrong", w);
  ctx.equal([out.info.contact, out.info.license], [env.CONTACT_NAME && env.CONTACT_URL ? { name: env.CONTACT_NAME, url: env.CONTACT_URL } : undefined, env.LICENSE_NAME && env.LICENSE_URL ? { name: env.LICENSE_NAME, url: env.LICENSE_URL } : undefined], "contact", "contact or license is wrong", w);
  if (env.REMOVESECURITY) ctx.expect(!/"security"|securitySchemes/.test(JSON.stringify([out.paths, Object.keys(out.components ?? {})])), "security-left", "security is shown although it is removed", w);
}
const norm = (x) => (x === undefined ? undefined : JSON.parse(JSON.stringify(x, (_k, v) => (v && typeof v === "object" && !Array.isArray(v) ? Object.fromEntries(Object.entries(v).sort()) : v))));
/** a body sent in aws-chunked encoding, without its framing */
function unchunk(r) {
  if (!/aws-chunked/.test(r.headers["content-encoding"] ?? "") && !/STREAMING/.test(r.headers["x-amz-content-sha256"] ?? "")) return r.body.toString();
  let b = r.body;
  const out = [];
  for (;;) {
    const e = b.indexOf("\r\n");
    const n = Number.parseInt(b.subarray(0, e).toString().split(";")[0], 16);
    if (!n) break;
    out.push(b.subarray(e + 2, e + 2 + n));
    b = b.subarray(e + 4 + n);
  }
  return Buffer.concat(out).toString();
}

/** a new documentation version is one the gateway does not have yet */
async function versions(ctx, rng, aws) {
  const ids = rng.array(rng.int(1, 4), (i) => `gw${i}`);
  const have = Object.fromEntries(ids.map((id) => {
    const n = rng.pick([0, 1, 3, 9, 10, 12, 99, 120]);
    const kind = rng.pick(["numbers", "numbers", "hashes", "mixed"]);
    return [id, rng.shuffle(rng.array(n, (i) => (kind === "numbers" || (kind === "mixed" && rng.bool()) ? String(i + 1) : "h" + rng.word(5, 8) + i)))];
  }));
  const before = structuredClone(have);
  const made = [];
  aws.handle = async (r) => {
    const m = /^\/restapis\/([^/]+)\/documentation\/versions/.exec(r.path);
    if (!m) return { status: 500 };
    if (r.method === "GET") {
      const size = Math.min(Number(r.query.get("limit") ?? 25), 500);
      const at = Number(r.query.get("position") ?? 0);
      return { body: JSON.stringify({ item: have[m[1]].slice(at, at + size).map((version) => ({ version, createdDate: 1 })), ...(at + size < have[m[1]].length ? { position: String(at + size) } : {}) }) };
    }
    const b = JSON.parse(r.body);
    if (have[m[1]].includes(b.documentationVersion)) return { status: 409, body: JSON.stringify({ message: "exists" }), headers: { "x-amzn-errortype": "ConflictException" } };
    have[m[1]].push(b.documentationVersion);
    made.push([m[1], b.documentationVersion, b.stageName]);
    return { status: 201, body: JSON.stringify({ version: b.documentationVersion }) };
  };
  for (const k of ENV) delete process.env[k];
  Object.assign(process.env, { REGION: "eu-west-1", APIGW_IDS: JSON.stringify(ids) });
  const { handler } = await repo("other/swagger-joiner/src/lambda/update-api-gateway-documentation/lambda-update-api-gateway-documentation.ts");
  const r = await ctx.attempt(() => handler());
  ctx.case({ before });
  const w = () => ({ before, made, error: r.error?.stack });
  if (!ctx.expect(r.ok, "versions-failed", "creating documentation versions failed", w)) return;
  ctx.equal(made.map((m) => [m[0], m[2]]).sort(), ids.map((i) => [i, "prod"]).sort(), "versions-made", "not every API got exactly one new version in its stage", w);
  for (const [id, v] of made) {
    ctx.observe("doc-versions");
    ctx.expect(!before[id].includes(v) && /^\d+$/.test(v), "version-new", "a documentation version is not a new number", w);
    if (before[id].length && before[id].every((x) => /^\d+$/.test(x))) ctx.equal(Number(v), Math.max(...before[id].map(Number)) + 1, "version-next", "the new version does not follow the highest", w);
  }
}

/** the document schema keeps what valid documents say */
async function documents(ctx, rng) {
  const { openapiSchema } = await repo("lib/digitraffic-common/src/types/openapi-schema.ts");
  for (let i = 0; i < ctx.n(120, 600); i++) {
    const param = { name: rng.word(1, 5), in: rng.pick(["query", "path", "header", "cookie"]), ...rng.maybe(() => ({ style: "form", explode: rng.bool() }), 0.4), ...rng.maybe(() => ({ deprecated: rng.bool(), allowEmptyValue: rng.bool(), allowReserved: true }), 0.3), ...rng.maybe(() => ({ example: rng.json(), examples: { a: { value: 1 } } }), 0.3), schema: rng.json() };
    const op = { tags: ["t"], summary: rng.text(9), externalDocs: { url: "u" }, parameters: [param, { $ref: "#/components/parameters/p" }], requestBody: rng.json(), responses: { 200: { description: "x" } }, callbacks: { c: {} }, security: [{ k: ["s"] }], servers: [{ url: "u" }] };
    const doc = { openapi: "3.0." + rng.int(0, 3), info: { title: rng.text(8), version: "1", contact: { email: "a@example.com" }, license: { name: "l" } }, externalDocs: { url: "u" }, servers: [{ url: "u", variables: { v: { default: "d", enum: ["d"] } } }], tags: [{ name: "t", externalDocs: { url: "u" } }], paths: { "/p": { [rng.pick(METHODS)]: op, ...rng.maybe(() => ({ parameters: [param, ...(rng.bool() ? [{ $ref: "#/x" }] : [])] }), 0.3), ...rng.maybe(() => ({ servers: [{ url: "u" }] }), 0.2) } }, components: { schemas: { s: rng.json() }, links: {} } };
    const key = Object.keys(doc).filter((k) => !["openapi", "info", "paths"].includes(k));
    for (const k of rng.subset(key, 0.2)) delete doc[k];
    ctx.case({ doc });
    ctx.observe("valid-documents");
    const r = ctx.attemptSync(() => openapiSchema.parse(structuredClone(doc)));
    if (ctx.expect(r.ok, "document-refused", "a valid document was refused", () => ({ doc, error: String(r.error).slice(0, 400) }))) ctx.equal(norm(r.value), norm(doc), "document-changed", "a valid document was changed", { doc });
  }
  const good = { openapi: "3.0.1", info: { title: "t", version: "1" }, paths: {} };
  for (const bad of [{ openapi: "2.0" }, { openapi: "4.0.0" }, { info: { title: "t" } }, { info: { title: 1, version: "1" } }, { paths: { "/p": { get: { summary: 1 } } } }, { paths: { "/p": { get: { parameters: [{ name: "x", in: "body" }] } } } }, { tags: [{}] }, { security: {} }, { components: { other: {} } }]) ctx.expect(!openapiSchema.safeParse({ ...good, ...bad }).success, "document-accepted", "an invalid document was accepted", { bad });
}

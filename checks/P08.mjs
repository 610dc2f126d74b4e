import { lib } from "../harness/hooks.mjs";
import { renderResponse } from "../harness/apigw.mjs";
import { inScratch, build, inlineFunction, cdkMod } from "../harness/infra.mjs";

const { DigitrafficIntegration } = await lib("aws/infra/api/integration.ts");
const { DigitrafficStaticIntegration } = await lib("aws/infra/api/static-integration.ts");
const { DigitrafficMethodResponse } = await lib("aws/infra/api/response.ts");
const resp = await lib("aws/infra/api/responses.ts");
const { DigitrafficIntegrationResponse } = await lib("aws/runtime/digitraffic-integration-response.ts");
const errors = await lib("aws/types/errors.ts");
const { LambdaResponse, LambdaResponseBuilder } = await lib("aws/types/lambda-response.ts");
const { MediaType } = await lib("aws/types/mediatypes.ts");
const apigw = cdkMod("aws-apigateway");
const MEDIA = Object.values(MediaType);

/** picks the integration response API Gateway would use */
function route(integ, errorMessage) {
  const rs = integ.IntegrationResponses ?? [];
  if (errorMessage !== undefined) {
    const hit = rs.find((r) => r.SelectionPattern && new RegExp("^(?:" + r.SelectionPattern + ")$", "s").test(errorMessage));
    if (hit) return hit;
  }
  return rs.find((r) => !r.SelectionPattern);
}

function lambdaResult(rng) {
  const status = rng.pick([200, 200, 200, 200, 201, 204, 400, 401, 404, 413, 500, 501]);
  const text = rng.pick([() => JSON.stringify(rng.json(3)), () => rng.text(120).toWellFormed(), () => rng.word(1, 20), () => '{"a":"äöå€😀"}', () => "$input.path #set($x=1) #end ## $util.foo\n", () => " leading and trailing \n\n", () => "line1\r\nline2\t"])() || "x";
  const fileName = rng.maybe(() => rng.word(1, 8) + rng.pick([".csv", ".txt", ".geojson", "-2024-01.csv", " file.csv"]));
  const timestamp = rng.maybe(() => rng.date());
  const kind = rng.pick(["builder", "static", "binary", "ctor"]);
  if (kind === "builder") {
    let b = LambdaResponseBuilder.create(text).withStatus(status);
    if (fileName) b = b.withFileName(fileName);
    if (timestamp) b = b.withTimestamp(timestamp);
    return { res: b.build(), status, bytes: Buffer.from(text), fileName, timestamp };
  }
  if (kind === "binary") {
    const bytes = Buffer.from(rng.array(rng.int(1, 200), () => rng.int(0, 255)));
    let res = LambdaResponse.okBinary(bytes.toString("base64"), fileName);
    if (timestamp) res = res.withTimestamp(timestamp);
    return { res, status: 200, bytes, fileName, timestamp };
  }
  if (kind === "ctor") return { res: new LambdaResponse(status, Buffer.from(text).toString("base64"), fileName, timestamp), status, bytes: Buffer.from(text), fileName, timestamp };
  const [f, st] = rng.pick([["ok", 200], ["badRequest", 400], ["notFound", 404], ["internalError", 500], ["unauthorized", 401], ["contentTooLarge", 413], ["notImplemented", 501]]);
  return { res: LambdaResponse[f](text), status: st, bytes: Buffer.from(text) };
}

export default {
  id: "P08",
  rule: "A case is one response of a function rendered through the response mapping of a synthesized integration (random media type, deprecation, sunset), one error routed through the legacy integration, or one static endpoint; non-trivial when a client response was produced and compared.",
  assumptions: ["VTL is evaluated by velocityjs with the platform's documented $input/$util/$context objects; base64Decode is byte preserving.", "File names contain no quotes, dollar signs or backslashes."],
  async run(ctx) {
    ctx.require("responses", 2000);
    ctx.require("deprecated", 300);
    ctx.require("non-200", 300);
    ctx.require("routed", 20);
    ctx.require("static", 20);
    ctx.require("function-errors", 400);
    await inScratch(() => {
      const rng = ctx.rng;
      for (let b = 0; b < ctx.n(5, 30); b++) {
        const defs = [];
        const statics = [];
        const legacy = [];
        const cfn = build((stack) => {
          const api = new apigw.RestApi(stack, "api");
          const model = new apigw.Model(stack, "m", { restApi: api, schema: {}, modelName: "m" });
          const fn = inlineFunction(stack);
          for (let i = 0; i < 30; i++) {
            const d = { media: rng.maybe(() => rng.pick(MEDIA)), deprecation: rng.maybe(() => rng.bool(0.7)), sunset: rng.maybe(() => rng.pick(["2025-01-31", "2022-12-20T00:00:00Z", "2030-06-30T21:00:00.000Z", "2024-02-29"])) };
            const integ = new DigitrafficIntegration(fn, d.media, d.deprecation, d.sunset);
            if (rng.bool()) integ.addQueryParameter("a");
            const name = `d${b}x${i}`;
            api.root.addResource(name).addMethod("GET", integ.build(), { methodResponses: [DigitrafficMethodResponse.response200(model, d.media, !!d.deprecation, !!d.deprecation && !!d.sunset), DigitrafficMethodResponse.response400(), DigitrafficMethodResponse.response500()] });
            defs.push([name, d]);
          }
          for (let i = 0; i < 8; i++) {
            const o = { xml: rng.bool(), disableCors: rng.bool() };
            const name = `l${b}x${i}`;
            api.root.addResource(name).addMethod("GET", resp.defaultIntegration(fn, o), { methodResponses: ["200", "400", "404", "500"].map((s) => resp.methodResponse(s, MediaType.APPLICATION_JSON, model, { "method.response.header.Access-Control-Allow-Origin": true })) });
            legacy.push([name, o]);
          }
          for (let i = 0; i < 8; i++) {
            const o = { body: rng.pick([() => ({ nested: { arr: [1, 2, { x: "äö€" }], b: true, n: null } }), () => [{ a: 1 }], () => ({ t: rng.word(1, 9) })])(), media: rng.pick(MEDIA), cors: rng.maybe(() => rng.bool()), key: rng.maybe(() => rng.bool()), headers: rng.maybe(() => ({ "Cache-Control": "max-age=" + rng.int(0, 999), ...(rng.bool() ? { "X-Foo": rng.word(1, 5) } : {}) })), json: rng.bool() };
            const name = `s${b}x${i}`;
            const before = JSON.stringify(o.headers);
            const r = api.root.addResource(name);
            if (o.json) DigitrafficStaticIntegration.json(r, o.body, model, o.cors, o.key, o.headers);
            else new DigitrafficStaticIntegration(r, o.media, JSON.stringify(o.body), model, o.cors, o.key, o.headers);
            ctx.expect(JSON.stringify(o.headers) === before, "static-mutates", "the caller's header object was changed", () => o);
            statics.push([name, o]);
          }
        });
        const methods = (name) => {
          const res = cfn.find("AWS::ApiGateway::Resource", (p) => p.PathPart === name);
          return cfn.props("AWS::ApiGateway::Method").filter((p) => p.ResourceId?.Ref === res[0]);
        };
        for (const [name, d] of defs) {
          const m = methods(name)[0];
          const media = d.media ?? MediaType.TEXT_PLAIN;
          const r200 = m.MethodResponses.find((r) => r.StatusCode === "200");
          ctx.expect(!d.media || media in (r200?.ResponseModels ?? {}), "method-model", "the 200 response does not declare the model for its media type", () => ({ d, m }));
          ctx.expect(r200?.ResponseParameters?.["method.response.header.Access-Control-Allow-Origin"] === true, "method-cors", "the 200 response does not declare the CORS header", () => ({ d, m }));
          ctx.expect(!!r200?.ResponseParameters?.["method.response.header.Deprecation"] === !!d.deprecation && !!r200?.ResponseParameters?.["method.response.header.Sunset"] === (!!d.deprecation && !!d.sunset), "method-deprecation", "declared deprecation headers do not match", () => ({ d, r200 }));
          for (let k = 0; k < ctx.n(15, 60); k++) {
            const c = lambdaResult(rng);
            const ir = route(m.Integration);
            const t = ir?.ResponseTemplates?.[media];
            const w = () => ({ definition: d, returned: c.res, bytes: c.bytes.toString("utf8") });
            if (!ctx.expect(typeof t === "string", "no-template", "no response mapping for the media type asked for", () => ({ d, ir }))) break;
            const r = ctx.attemptSync(() => renderResponse(t, c.res, { status: ir.StatusCode, contentType: media }));
            if (!ctx.expect(r.ok, "render", "the response mapping cannot be evaluated", () => ({ ...w(), error: r.error?.message }))) continue;
            const o = r.value;
            ctx.observe("responses");
            if (c.status !== 200) ctx.observe("non-200");
            ctx.case([d, c.status, c.fileName, String(c.timestamp), c.bytes.toString("base64")], true, { d, status: c.status, fileName: c.fileName });
            const ww = () => ({ ...w(), got: { status: o.status, headers: o.headers, body: o.body.toString("utf8") } });
            ctx.expect(o.status === c.status, "status", "the client's status code is not the function's", ww);
            ctx.expect(Buffer.compare(o.body, c.bytes) === 0, d.deprecation ? "body-deprecated" : "body", "the client's body is not the function's body", ww);
            ctx.expect(o.headers["access-control-allow-origin"] === "*", "cors", "the CORS header is missing", ww);
            ctx.expect(o.headers["content-type"] === (c.status === 200 ? media : "text/plain"), "content-type", "wrong content type", ww);
            ctx.expect(o.headers.etag === c.res.etag && !!c.res.etag, "etag", "the entity tag did not reach the client", ww);
            ctx.expect(o.headers["last-modified"] === c.timestamp?.toUTCString(), "last-modified", "the last-modified time is not the one given", ww);
            ctx.expect(o.headers["content-disposition"] === (c.fileName ? `attachment; filename="${c.fileName}"` : undefined), "disposition", "the file name did not reach the client", ww);
            if (d.deprecation) ctx.observe("deprecated");
            ctx.expect(o.headers.deprecation === (d.deprecation ? "true" : undefined), "deprecation", "deprecation header does not match", ww);
            ctx.expect(o.headers.sunset === (d.deprecation && d.sunset ? new Date(d.sunset).toUTCString() : undefined), "sunset", "sunset header does not match", ww);
            const known = ["content-type", "access-control-allow-origin", "etag", "last-modified", "content-disposition", "deprecation", "sunset"];
            ctx.expect(Object.keys(o.headers).every((k2) => known.includes(k2)), "extra-header", "unexpected response header", ww);
          }
          // what the platform passes on when the function threw, ran out of time or was killed
          for (let k = 0; k < 3; k++) {
            const failed = { errorMessage: rng.pick(["boom", "", "2024-01-01T00:00:00.000Z 1 Task timed out after 60.00 seconds", '{"x":"$input"}', "RequestId: 1 Error: Runtime exited with error: signal: killed"]), ...(rng.bool() ? { errorType: rng.pick(["Error", "Runtime.ExitError"]) } : {}), ...(rng.bool() ? { trace: ["Error: boom", "    at handler (/var/task/index.js:1:1)"] } : {}) };
            const ir = route(m.Integration, failed.errorMessage);
            const r = ctx.attemptSync(() => renderResponse(ir.ResponseTemplates[media], failed, { status: ir.StatusCode, contentType: media }));
            const w = () => ({ definition: d, failed, got: r.ok ? { status: r.value.status, headers: r.value.headers, body: r.value.body.toString("utf8") } : r.error?.message });
            if (!ctx.expect(r.ok, "render", "the response mapping cannot be evaluated", w)) continue;
            ctx.observe("function-errors");
            ctx.case([d, failed], true, { d, failed });
            ctx.expect(r.value.status === 500, "failed-status", "a function that failed without an answer is not answered with 500", w);
            ctx.expect(r.value.headers["content-type"] === "text/plain", "failed-type", "an error is answered with the media type of the data", w);
            ctx.expect(r.value.headers["access-control-allow-origin"] === "*", "cors", "the CORS header is missing", w);
            ctx.expect(!/boom|var.task|signal/.test(r.value.body.toString("utf8")), "failed-body", "the error of a function is shown to the client", w);
          }
        }
        for (const [name, o] of legacy) {
          const integ = methods(name)[0].Integration;
          for (const [msg, st, text] of [[undefined, "200"], [errors.BAD_REQUEST_MESSAGE, "400", "Bad Request"], [errors.NOT_FOUND_MESSAGE, "404", "Not Found"], [errors.ERROR_MESSAGE, "500", "Error"]]) {
            const ir = route(integ, msg);
            ctx.observe("routed");
            ctx.case([name, o, msg]);
            ctx.expect(ir?.StatusCode === st, "legacy-status", `a function error ${msg} is answered with the wrong status`, () => ({ o, ir, integ }));
            ctx.expect(!o.disableCors === (ir?.ResponseParameters?.["method.response.header.Access-Control-Allow-Origin"] === "'*'"), "legacy-cors", "CORS header of a legacy integration does not match the options", () => ({ o, ir }));
            if (text && !o.xml) ctx.equal(ctx.attemptSync(() => JSON.parse(ir.ResponseTemplates["application/json"])).value, { message: text }, "legacy-body", "wrong error body", () => ({ o, ir }));
            if (o.xml && st === "200") ctx.expect(!!ir.ResponseTemplates?.["application/xml"], "legacy-xml", "XML response is not mapped", () => ({ o, ir }));
          }
        }
        for (const [name, o] of statics) {
          const ms = methods(name);
          ctx.observe("static");
          ctx.case([name, o]);
          const media = o.json ? "application/json" : o.media;
          const w = () => ({ o, ms });
          ctx.equal(ms.map((m) => m.HttpMethod).sort(), ["GET", "HEAD"], "static-methods", "a static endpoint must answer GET and HEAD", w);
          for (const m of ms) {
            ctx.expect(!!m.ApiKeyRequired === (o.key ?? true), "static-key", "API key requirement of a static endpoint does not match", w);
            const ir = route(m.Integration);
            const headers = { ...o.headers, ...((o.cors ?? true) ? { "Access-Control-Allow-Origin": "*" } : {}) };
            ctx.expect(m.Integration.Type === "MOCK" && ir?.StatusCode === "200", "static-status", "a static endpoint must answer 200", w);
            ctx.equal(ctx.attemptSync(() => JSON.parse(m.Integration.RequestTemplates[media])).value, { statusCode: 200 }, "static-mock", "the mock integration does not produce status 200", w);
            ctx.equal(ctx.attemptSync(() => JSON.parse(renderResponse(ir.ResponseTemplates[media], {}).text)).value, JSON.parse(JSON.stringify(o.body)), "static-body", "a static endpoint does not answer with the given content", w);
            ctx.equal({ ...ir.ResponseParameters }, Object.fromEntries(Object.entries(headers).map(([k, v]) => ["method.response.header." + k, `'${v}'`])), "static-headers", "headers of a static endpoint do not match", w);
            const mr = m.MethodResponses?.find((r) => r.StatusCode === "200");
            ctx.equal({ ...mr?.ResponseParameters }, Object.fromEntries(Object.keys(headers).map((k) => ["method.response.header." + k, true])), "static-declared", "a header is sent that is not declared, or the reverse", w);
            ctx.expect(!!mr?.ResponseModels?.[media], "static-model", "the response model is not declared for the media type", w);
          }
        }
      }
      for (const [f, st] of [["ok", "200"], ["badRequest", "400"], ["notImplemented", "501"]])
        for (const mt of MEDIA) {
          const r = DigitrafficIntegrationResponse[f](mt);
          ctx.expect(r.statusCode === st && Object.keys(r.responseTemplates ?? {}).join() === mt && !r.selectionPattern, "integration-response", "status or media type of an integration response does not match", () => ({ f, mt, r }));
        }
    });
  },
};

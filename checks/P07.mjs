import { lib } from "../harness/hooks.mjs";
import { renderRequest } from "../harness/apigw.mjs";
import { inScratch, build, inlineFunction, cdkMod } from "../harness/infra.mjs";

const { DigitrafficIntegration } = await lib("aws/infra/api/integration.ts");
const { MediaType } = await lib("aws/types/mediatypes.ts");
const apigw = cdkMod("aws-apigateway");

const NAMES = ["a", "id", "site_id", "fromTime", "lastUpdated", "x-y", "bbox", "filter", "Accept", "limit", "q1", "abc_def"];

export default {
  id: "P07",
  rule: "A case is one request (random path, query, multi-value, header and context values, body) against one random integration definition taken from the synthesized CloudFormation; non-trivial when the rendered event carried at least one value.",
  assumptions: ["VTL is evaluated by velocityjs with the platform's documented $input/$util objects (escapeJavaScript escapes single quotes); parameter names of clients are non-empty.", "A parameter the request does not carry may be absent or empty."],
  async run(ctx) {
    ctx.require("events", 1000);
    ctx.require("values", 2000);
    ctx.require("hostile", 300);
    ctx.require("payloads", 100);
    ctx.require("declared-collisions", 20);
    await inScratch(() => {
      const rng = ctx.rng;
      for (let b = 0; b < ctx.n(6, 40); b++) {
        const defs = [];
        const cfn = build((stack) => {
          const api = new apigw.RestApi(stack, "api", { deploy: true });
          const fn = inlineFunction(stack);
          for (let i = 0; i < 40; i++) {
            const d = { path: [], query: [], multi: [], header: [], context: [], all: rng.bool(0.35), body: rng.bool(0.4), media: rng.pick([MediaType.APPLICATION_JSON, MediaType.TEXT_PLAIN, MediaType.TEXT_CSV]) };
            const free = rng.shuffle([...NAMES]);
            const take = (k, p, max) => { if (rng.bool(p)) d[k] = free.splice(0, rng.int(1, max)); };
            take("path", 0.5, 2);
            if (!d.all) take("query", 0.6, 3);
            take("multi", 0.35, 2);
            take("header", 0.35, 2);
            if (rng.bool(0.35)) d.context = rng.subset(["authorizer.user", "requestId", "identity.sourceIp", "authorizer.c2"]);
            const integ = new DigitrafficIntegration(fn, d.media);
            const steps = rng.shuffle([
              () => d.path.length && integ.addPathParameter(...d.path),
              () => d.query.length && integ.addQueryParameter(...d.query),
              () => d.multi.length && integ.addMultiValueQueryParameter(...d.multi),
              () => d.header.length && integ.addHeaderParameter(...d.header),
              () => d.context.length && integ.addContextParameter(...d.context),
              () => d.all && integ.passAllQueryParameters(),
              () => d.body && integ.passBody(),
            ]);
            for (const s of steps) s();
            const r = api.root.addResource(`r${b}x${i}`);
            r.addMethod("GET", integ.build());
            const e = ctx.attemptSync(() => new DigitrafficIntegration(fn).addPathParameter("_x"));
            ctx.expect(!e.ok, "reserved-name", "a parameter with a reserved name was accepted");
            const e2 = ctx.attemptSync(() => (rng.bool() ? new DigitrafficIntegration(fn).passAllQueryParameters().addQueryParameter("a") : new DigitrafficIntegration(fn).addQueryParameter("a").passAllQueryParameters()));
            ctx.expect(!e2.ok, "all-and-declared", "declared query parameters together with pass-all were accepted");
            defs.push([`r${b}x${i}`, d]);
          }
        });
        for (const [name, d] of defs) {
          const res = cfn.find("AWS::ApiGateway::Resource", (p) => p.PathPart === name);
          const m = cfn.find("AWS::ApiGateway::Method", (p) => p.ResourceId?.Ref === res[0]);
          const integ = m[1].Properties.Integration;
          const any = d.path.length + d.query.length + d.multi.length + d.header.length + d.context.length > 0 || d.all || d.body;
          const template = integ.RequestTemplates?.["application/json"];
          ctx.expect(integ.Type === "AWS", "proxy", "the integration bypasses the request template", () => integ);
          if (!ctx.expect(!any || typeof template === "string", "no-template", "an integration with parameters has no request template, so the function never sees them", () => ({ d, integ }))) continue;
          if (!any) continue;
          for (let k = 0; k < ctx.n(12, 60); k++) one(ctx, rng, d, template);
        }
      }
    });
  },
};

function value(rng, ctx) {
  if (rng.bool(0.5)) return rng.pick(["1", "2024-01-01T00:00:00Z", "FI", "true", "60.1,24.9", rng.word(1, 10)]);
  ctx.observe("hostile");
  return rng.pick(["it's", 'say "hi"', "back\\slash", "a\nb\tc", "äöå€😀", '","payload":"x', "\\u0041", "</x>", "a/b", "#set($x=1)", "$input.body", "{}", "'", '"', "\\", " ", "%20", rng.text(20).toWellFormed() || "z"]);
}

function one(ctx, rng, d, template) {
  const req = { path: {}, query: {}, multi: {}, header: {}, context: { authorizer: {}, identity: {} }, body: rng.bool(0.2) ? "" : rng.bool(0.3) ? JSON.stringify(rng.json(3)) : rng.text(80).toWellFormed() };
  const exp = {};
  const optional = new Set();
  const put = (o, n, p = 0.85) => { if (rng.bool(p)) { exp[n] = o[n] = value(rng, ctx); } else optional.add(n); };
  for (const n of d.path) put(req.path, n, 1);
  for (const n of d.header) put(req.header, n);
  for (const n of d.query) put(req.query, n);
  for (const n of d.multi) {
    if (rng.bool(0.85)) {
      req.multi[n] = rng.array(rng.int(1, 4), () => value(rng, ctx));
      req.query[n] = req.multi[n].at(-1);
      exp[n] = req.multi[n];
    } else optional.add(n);
  }
  for (const n of d.context) {
    const [a, c] = n.split(".");
    const v = value(rng, ctx);
    if (c) req.context[a][c] = v;
    else req.context[a] = v;
    exp[n] = v;
  }
  if (d.body) exp.payload = Buffer.from(req.body, "utf8").toString("base64");
  // what the client adds on top
  const declared = new Set([...d.path, ...d.header, ...d.query, ...d.multi, ...d.context, ...(d.body ? ["payload"] : [])]);
  for (let i = rng.int(0, 3); i > 0; i--) {
    const n = rng.bool(0.3) && declared.size ? rng.pick([...declared]) : rng.pick([...NAMES, "other", "zz", "a.b", "weird-1", "q'uote", 'qu"ote', "ä"]);
    if (d.query.includes(n) || d.multi.includes(n)) continue;
    if (n in req.query) continue;
    req.query[n] = value(rng, ctx);
    if (declared.has(n)) ctx.observe("declared-collisions");
    else if (d.all) exp[n] = req.query[n];
  }
  if (d.all && rng.bool(0.1) && declared.size) req.query["_" + rng.pick([...declared])] = "evil";
  const w = () => ({ definition: d, request: req });
  const r = ctx.attemptSync(() => renderRequest(template, req));
  if (!ctx.expect(r.ok, "render", "the request template cannot be evaluated", () => ({ ...w(), error: r.error?.message }))) return;
  let ev;
  try { ev = JSON.parse(r.value); } catch (e) {
    ctx.violation("event-json", "the event passed to the function is not valid JSON", { ...w(), event: r.value, error: e.message });
    return;
  }
  ctx.observe("events");
  ctx.observe("values", Object.keys(exp).length);
  if (d.body) ctx.observe("payloads");
  ctx.case([d, req], Object.keys(exp).length > 0, { definition: d, query: req.query });
  for (const [k, v] of Object.entries(exp)) ctx.equal(ev[k], v, "value-" + (k === "payload" && d.body ? "payload" : d.path.includes(k) ? "path" : d.header.includes(k) ? "header" : d.multi.includes(k) ? "multi" : d.context.includes(k) ? "context" : d.query.includes(k) ? "query" : "all"), `the function did not get the request's value of ${JSON.stringify(k)}`, () => ({ ...w(), event: r.value }));
  for (const k of Object.keys(ev)) {
    if (k in exp) continue;
    const v = ev[k];
    const empty = v === "" || v === null || (Array.isArray(v) && !v.length);
    ctx.expect(optional.has(k) && empty, "extra", `the function got something the request does not carry: ${JSON.stringify(k)}`, () => ({ ...w(), event: r.value }));
  }
}

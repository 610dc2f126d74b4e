// A deployed REST API as a template describes it: requests are routed by its resources and
// methods, mapped by its templates, handled by the functions of /repo's sources, and the
// results mapped back the way the platform does it.
import { target, text } from "./cfn.mjs";
import { renderRequest, renderResponse } from "./apigw.mjs";

/** every method of a template that ends in a function */
export function readRoutes(cfn, conf) {
  const res = Object.fromEntries(cfn.of("AWS::ApiGateway::Resource").map(([id, r]) => [id, r.Properties]));
  const pathOf = (id) => (res[id] ? pathOf(target(res[id].ParentId)).replace(/\/$/, "") + "/" + res[id].PathPart : "/");
  const routes = [];
  for (const [, r] of cfn.of("AWS::ApiGateway::Method")) {
    const p = r.Properties;
    const i = p.Integration ?? {};
    const fn = Object.keys(conf.functions).find((id) => JSON.stringify(i.Uri ?? "").includes(`"${id}"`));
    const path = pathOf(target(p.ResourceId));
    routes.push({ api: target(p.RestApiId), verb: p.HttpMethod, path, parts: path.split("/").filter(Boolean), fn, type: i.Type, uri: text(i.Uri ?? ""), request: i.RequestTemplates ?? {}, responses: i.IntegrationResponses ?? [], key: p.ApiKeyRequired === true, auth: p.AuthorizationType, authorizer: p.AuthorizerId && target(p.AuthorizerId), integration: i, params: p.RequestParameters ?? {} });
  }
  return routes;
}
function match(route, segments) {
  const path = {};
  for (const [i, part] of route.parts.entries()) {
    const greedy = /^\{(.+)\+\}$/.exec(part);
    if (greedy) {
      if (segments.length <= i) return undefined;
      path[greedy[1]] = segments.slice(i).map(decodeURIComponent).join("/");
      return path;
    }
    const v = /^\{(.+)\}$/.exec(part);
    if (segments[i] === undefined) return undefined;
    if (v) path[v[1]] = decodeURIComponent(segments[i]);
    else if (part !== segments[i]) return undefined;
  }
  return segments.length === route.parts.length ? path : undefined;
}

export class Api {
  /** load(functionId) gives the handler */
  constructor(routes, load) {
    this.routes = routes;
    this.load = load;
  }
  find(verb, url) {
    const segments = url.split("?")[0].split("/").filter(Boolean);
    const all = this.routes.filter((r) => r.verb === verb || r.verb === "ANY").map((r) => [r, match(r, segments)]).filter(([, p]) => p);
    // literal parts win over parameters
    all.sort(([a], [b]) => a.parts.filter((x) => x.startsWith("{")).length - b.parts.filter((x) => x.startsWith("{")).length);
    return all[0];
  }
  async call(verb, url, { headers = {}, body, context = {} } = {}) {
    const [route, path] = this.find(verb, url) ?? [];
    if (!route?.fn) return { status: route ? 500 : 403, headers: {}, body: Buffer.from("{}"), text: "{}", route };
    const query = {};
    const multi = {};
    for (const [k, v] of new URLSearchParams(url.split("?")[1] ?? "")) {
      query[k] = v;
      (multi[k] ??= []).push(v);
    }
    const handler = await this.load(route.fn);
    const ctx = { awsRequestId: "r", functionName: route.fn };
    if (route.type === "AWS_PROXY") {
      const event = { resource: route.path, path: url.split("?")[0], httpMethod: verb, headers, multiValueHeaders: Object.fromEntries(Object.entries(headers).map(([k, v]) => [k, [v]])), queryStringParameters: Object.keys(query).length ? query : null, multiValueQueryStringParameters: Object.keys(multi).length ? multi : null, pathParameters: Object.keys(path).length ? path : null, body: body ?? null, isBase64Encoded: false, requestContext: { ...context } };
      let r;
      let error;
      try {
        r = await handler(event, ctx);
      } catch (e) {
        error = e;
      }
      const ok = !error && r && typeof r === "object" && Number.isInteger(r.statusCode) && (r.body === undefined || r.body === null || typeof r.body === "string");
      const out = ok ? Buffer.from(r.body ?? "", r.isBase64Encoded ? "base64" : "utf8") : Buffer.from('{"message": "Internal server error"}');
      return { status: ok ? r.statusCode : 502, headers: Object.fromEntries(Object.entries(r?.headers ?? {}).map(([k, v]) => [k.toLowerCase(), String(v)])), body: out, text: out.toString(), route, raw: r, error };
    }
    const template = route.request["application/json"] ?? Object.values(route.request)[0];
    let event;
    try {
      const rendered = template === undefined ? (body ?? "{}") : renderRequest(template, { path, query, multi, header: headers, body: body ?? "", context });
      event = rendered.trim() === "" ? {} : JSON.parse(rendered);
    } catch (e) {
      return { status: 500, headers: {}, body: Buffer.from('{"message": "Internal server error"}'), text: "", route, error: e, mapping: true };
    }
    let raw;
    let error;
    try {
      raw = await handler(event, ctx);
    } catch (e) {
      error = e;
      raw = { errorMessage: e?.message ?? String(e), errorType: e?.name ?? "Error" };
    }
    const byPattern = error && route.responses.find((x) => x.SelectionPattern && new RegExp(`^(?:${x.SelectionPattern})$`, "s").test(raw.errorMessage));
    const ir = byPattern ?? route.responses.find((x) => !x.SelectionPattern);
    if (!ir) return { status: 500, headers: {}, body: Buffer.alloc(0), text: "", route, raw, error };
    const [type, t] = Object.entries(ir.ResponseTemplates ?? {})[0] ?? [];
    if (t === undefined) {
      const b = Buffer.from(JSON.stringify(raw ?? null));
      return { status: Number(ir.StatusCode), headers: {}, body: b, text: b.toString(), route, raw, error };
    }
    const out = renderResponse(t, raw, { status: ir.StatusCode, contentType: type });
    return { ...out, text: out.body.toString("utf8"), route, raw, error };
  }
}

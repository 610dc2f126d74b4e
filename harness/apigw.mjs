// API Gateway mapping templates, as the platform evaluates them: VTL (velocityjs)
// with the platform's $input/$util/$context objects. Strings handed out by $util
// carry Java semantics for the methods templates use on them.
import { install, libPackage } from "./hooks.mjs";
install();
const velocity = libPackage("velocityjs");
const asts = new Map();
const parse = (t) => {
  let a = asts.get(t);
  if (!a) asts.set(t, (a = velocity.parse(t)));
  return a;
};

class JavaString {
  constructor(s) { this.s = s; }
  replaceAll(re, by) { return new JavaString(this.s.replace(new RegExp(re, "g"), String(by))); }
  replace(a, b) { return new JavaString(this.s.split(String(a)).join(String(b))); }
  substring(a, b) { return new JavaString(this.s.substring(a, b)); }
  trim() { return new JavaString(this.s.trim()); }
  length() { return this.s.length; }
  isEmpty() { return !this.s; }
  equals(o) { return this.s === String(o); }
  startsWith(o) { return this.s.startsWith(String(o)); }
  toString() { return this.s; }
  toJSON() { return this.s; }
}
// java.util.Map and java.lang.String methods velocityjs lacks or gives JavaScript semantics
const isMap = (c) => c && typeof c === "object" && !Array.isArray(c) && !(c instanceof JavaString);
const isStr = (c) => typeof c === "string";
const h = (name, ok, f) => ({ uid: "java:" + name, match: ({ property, context, params }) => property === name && ok(context) , resolve: ({ context, params }) => f(context, ...(params ?? [])) });
const own = (m, k) => Object.prototype.hasOwnProperty.call(m, String(k));
const customMethodHandlers = [
  h("get", isMap, (m, k) => (own(m, k) ? m[String(k)] : undefined)),
  h("put", isMap, (m, k, v) => { const old = own(m, k) ? m[String(k)] : undefined; m[String(k)] = v; return old; }),
  h("containsKey", isMap, (m, k) => own(m, k)),
  h("containsValue", isMap, (m, v) => Object.values(m).some((x) => String(x) === String(v))),
  h("getOrDefault", isMap, (m, k, d) => (own(m, k) ? m[String(k)] : d)),
  h("isEmpty", isMap, (m) => !Object.keys(m).length),
  h("values", isMap, (m) => Object.values(m)),
  h("isEmpty", isStr, (s) => !s),
  h("length", isStr, (s) => s.length),
  h("equals", isStr, (s, o) => s === String(o)),
  h("equalsIgnoreCase", isStr, (s, o) => s.toLowerCase() === String(o).toLowerCase()),
  h("contains", isStr, (s, o) => s.includes(String(o))),
  h("matches", isStr, (s, re) => new RegExp("^(?:" + re + ")$").test(s)),
  h("replaceAll", isStr, (s, re, by) => s.replace(new RegExp(String(re), "g"), String(by))),
  h("replace", isStr, (s, a, b) => s.split(String(a)).join(String(b))),
];
export function escapeJavaScript(v) {
  let r = "";
  for (const u of String(v ?? "").split("")) {
    const c = u.charCodeAt(0);
    if (u === "'" || u === '"' || u === "\\" || u === "/") r += "\\" + u;
    else if (u === "\n") r += "\\n";
    else if (u === "\r") r += "\\r";
    else if (u === "\t") r += "\\t";
    else if (u === "\b") r += "\\b";
    else if (u === "\f") r += "\\f";
    else if (c < 32 || c > 0x7f) r += "\\u" + c.toString(16).toUpperCase().padStart(4, "0");
    else r += u;
  }
  return r;
}
const util = () => ({
  escapeJavaScript: (s) => new JavaString(escapeJavaScript(s)),
  base64Encode: (s) => new JavaString(Buffer.from(String(s ?? ""), "utf8").toString("base64")),
  base64Decode: (s) => Buffer.from(String(s ?? ""), "base64").toString("latin1"),
  urlEncode: (s) => new JavaString(encodeURIComponent(String(s ?? ""))),
  urlDecode: (s) => new JavaString(decodeURIComponent(String(s ?? ""))),
  parseJson: (s) => JSON.parse(String(s)),
});

/** What the integration receives: the rendered template, as text. */
export function renderRequest(template, { path = {}, query = {}, multi = {}, header = {}, body = "", context = {} }) {
  const all = { path, querystring: query, header };
  const params = (n) => (n === undefined ? all : (path[n] ?? query[n] ?? header[n] ?? ""));
  const c = new velocity.Compile(parse(template), { customMethodHandlers });
  return String(
    c.render({
      method: { request: { multivaluequerystring: multi, querystring: query, path, header } },
      input: { body, params, json: () => body, path: (p) => (p === "$" ? JSON.parse(body) : undefined) },
      util: util(),
      context,
    }),
  );
}

/** What the client receives: status, headers and body. `payload` is what the lambda returned. */
export function renderResponse(template, payload, { status = "200", contentType = "application/json", stage = {} } = {}) {
  const override = { status: undefined, header: {} };
  const c = new velocity.Compile(parse(template), { customMethodHandlers });
  const json = payload === undefined ? null : JSON.parse(JSON.stringify(payload));
  const context = { ...stage, responseOverride: override };
  // "$" or "$.a.b"
  const at = (p) => p.split(".").slice(1).reduce((o, k) => o?.[k], json);
  const text = String(
    c.render({
      input: { body: JSON.stringify(json), path: at, json: (p) => JSON.stringify(at(p)), params: () => "" },
      util: util(),
      context,
    }),
  );
  const o = context.responseOverride;
  const headers = {};
  for (const [k, v] of Object.entries(o.header)) if (v !== undefined) headers[k.toLowerCase()] = String(v);
  return {
    status: Number(o.status ?? status),
    headers: { "content-type": contentType, ...headers },
    body: Buffer.from(text, "latin1"),
    text,
  };
}

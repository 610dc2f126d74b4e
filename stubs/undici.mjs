// request() of undici over node's http, as far as the applications use it: a dispatcher with
// the retry interceptor repeats answers and failures that may pass (without waiting), and
// gives up with an error; other answers are handed on whatever their status.
import http from "node:http";
const PASSING = [429, 500, 502, 503, 504];
export class Agent {
  constructor(options) {
    this.options = options;
    globalThis.__undici?.agent?.(options);
  }
  compose(...interceptors) {
    return { agent: this, retry: interceptors.flat().find((i) => i.kind === "retry") };
  }
}
export const interceptors = { retry: (options) => ({ kind: "retry", ...options }) };
function once(url, o) {
  return new Promise((ok, fail) => {
    const r = http.request(url, { method: o.method ?? "GET", headers: { ...o.headers } }, (res) => {
      const chunks = [];
      res.on("data", (c) => chunks.push(c));
      res.on("error", fail);
      res.on("end", () => ok({ statusCode: res.statusCode, headers: res.headers, buffer: Buffer.concat(chunks) }));
    });
    r.on("error", fail);
    r.end(o.body ?? undefined);
  });
}
export async function request(url, o = {}) {
  const retry = o.dispatcher?.retry;
  const tries = retry && retry.methods.includes(o.method) ? 1 + retry.maxRetries : 1;
  for (let i = 1; ; i++) {
    let r;
    try {
      r = await once(url, o);
    } catch (e) {
      if (i >= tries) throw e;
      continue;
    }
    if (tries > 1 && PASSING.includes(r.statusCode)) {
      if (i >= tries) throw Object.assign(new Error("Request failed"), { code: "UND_ERR_REQ_RETRY", statusCode: r.statusCode });
      continue;
    }
    const b = r.buffer;
    return { statusCode: r.statusCode, headers: r.headers, body: { text: async () => b.toString("utf8"), json: async () => JSON.parse(b.toString("utf8")), arrayBuffer: async () => b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength) } };
  }
}
export default { request, Agent, interceptors };

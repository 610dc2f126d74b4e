// Stand-ins of what a signed request to OpenSearch is made of; globalThis.__os answers.
export class STS {
  assumeRole(input, cb) {
    const p = globalThis.__os.assumeRole(input);
    if (!cb) return p;
    p.then((d) => cb(null, d), (e) => cb(e));
    return undefined;
  }
}
export class Sha256 {}
export class HttpRequest {
  constructor(o) {
    Object.assign(this, { method: "GET", protocol: "https:", path: "/", headers: {}, query: {} }, o);
  }
}
export class SignatureV4 {
  constructor(o) {
    this.o = o;
  }
  async sign(r) {
    const c = typeof this.o.credentials === "function" ? await this.o.credentials() : this.o.credentials;
    return new HttpRequest({ ...r, headers: { ...r.headers, authorization: [c.accessKeyId, c.secretAccessKey, c.sessionToken, this.o.region, this.o.service].join("/") }, signed: r.body });
  }
}
export class NodeHttpHandler {
  handle(r) {
    return globalThis.__os.handle(r);
  }
  destroy() {}
}

// A minimal AWS endpoint on loopback, so that the real SDK clients run unchanged
// against it (AWS_ENDPOINT_URL). Every request is recorded.
import http from "node:http";

export class FakeAws {
  constructor() {
    this.requests = [];
    this.handlers = [];
    this.server = http.createServer((req, res) => {
      const chunks = [];
      req.on("data", (c) => chunks.push(c));
      req.on("end", async () => {
        const body = Buffer.concat(chunks);
        const target = req.headers["x-amz-target"];
        const cred = /Credential=([^,]+)/.exec(req.headers.authorization ?? "")?.[1]?.split("/") ?? [];
        const r = { method: req.method, url: req.url, path: decodeURIComponent(req.url.split("?")[0]), query: new URLSearchParams(req.url.split("?")[1] ?? ""), headers: req.headers, body, target, region: cred[2], service: cred[3], seq: this.requests.length };
        this.requests.push(r);
        let a;
        try {
          a = await this.handle(r);
        } catch (e) {
          a = { status: 500, body: JSON.stringify({ __type: "InternalFailure", message: String(e) }) };
        }
        if (a === undefined) return; // never answers
        if (a.destroy) return res.destroy();
        res.writeHead(a.status ?? 200, { "content-type": "application/x-amz-json-1.1", ...(a.headers ?? {}) });
        res.end(a.body ?? "");
      });
    });
    this.handle = async () => ({ status: 501 });
  }
  async start() {
    await new Promise((r) => this.server.listen(0, "127.0.0.1", r));
    this.port = this.server.address().port;
    this.url = `http://127.0.0.1:${this.port}`;
    process.env.AWS_ENDPOINT_URL = this.url;
    process.env.AWS_MAX_ATTEMPTS = "1";
    process.env.AWS_EC2_METADATA_DISABLED = "true";
    return this;
  }
  async stop() {
    delete process.env.AWS_ENDPOINT_URL;
    this.server.closeAllConnections();
    await new Promise((r) => this.server.close(r));
  }
}

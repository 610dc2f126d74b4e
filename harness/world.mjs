// The surroundings of an application lambda: secrets and other AWS services (FakeAws), a
// database that executes the real SQL (SqlPg), one HTTP server standing for every outside
// service, and a virtual calendar (only Date is virtual; timers stay real).
import http from "node:http";
import { FakeAws } from "./fakeaws.mjs";
import { SqlPg } from "./sqlpg.mjs";
import { VirtualClock } from "./clock.mjs";

export class World {
  constructor(ddl, { start = Date.UTC(2024, 0, 15, 12), readers = false } = {}) {
    this.readers = readers;
    this.clock = new VirtualClock(start);
    this.ddl = ddl;
    this.secrets = new Map();
    this.requests = [];
    /** (request) => {status, body, headers} | undefined = destroy */
    this.serve = async () => ({ status: 404, body: "{}" });
    /** other AWS services */
    this.aws = async () => ({ status: 501, body: "{}" });
  }
  get now() {
    return this.clock.now;
  }
  set now(v) {
    this.clock.now = v;
  }
  async open() {
    this.fake = await new FakeAws().start();
    this.fake.handle = async (r) => {
      if (r.target === "secretsmanager.GetSecretValue") {
        const id = JSON.parse(r.body).SecretId;
        const v = this.secrets.get(id);
        if (v === undefined) return { status: 400, body: JSON.stringify({ __type: "ResourceNotFoundException", message: "no such secret" }) };
        return { body: JSON.stringify({ Name: id, SecretString: typeof v === "string" ? v : JSON.stringify(v) }) };
      }
      return this.aws(r);
    };
    Object.assign(process.env, { AWS_REGION: "eu-west-1", AWS_ACCESS_KEY_ID: "AKID", AWS_SECRET_ACCESS_KEY: "SECRET", SECRET_ID: "app-secret" });
    this.server = http.createServer((req, res) => {
      const chunks = [];
      req.on("data", (c) => chunks.push(c));
      req.on("end", async () => {
        const [p, q] = req.url.split("?");
        const r = { method: req.method, url: req.url, path: decodeURIComponent(p), query: new URLSearchParams(q ?? ""), headers: req.headers, body: Buffer.concat(chunks), at: this.now };
        this.requests.push(r);
        let a;
        try {
          a = await this.serve(r);
        } catch (e) {
          this.serveError = e;
          a = { status: 599, body: String(e) };
        }
        if (!a) return res.destroy();
        res.writeHead(a.status ?? 200, { "content-type": "application/json", ...(a.headers ?? {}) });
        if (a.chunks) {
          // in pieces, perhaps cut off before the end
          for (const c of a.chunks) {
            res.write(c);
            await new Promise((r) => setTimeout(r, 3));
          }
          return a.cut ? res.destroy() : res.end();
        }
        res.end(typeof a.body === "string" || Buffer.isBuffer(a.body) ? a.body : JSON.stringify(a.body ?? null));
      });
    });
    await new Promise((r) => this.server.listen(0, "127.0.0.1", r));
    this.url = `http://127.0.0.1:${this.server.address().port}`;
    if (this.ddl) {
      this.sql = await new SqlPg(this.ddl, { now: () => this.now, readers: this.readers }).start();
      const u = this.sql.uri;
      this.secrets.set("app-secret", { username: "u", password: "p", host: u, ro_host: u, proxy_host: u, proxy_ro_host: u });
    }
    this.clock.install({ timersToo: false });
    return this;
  }
  /** add values to the application's secret */
  secret(values, id = "app-secret") {
    this.secrets.set(id, { ...(this.secrets.get(id) ?? {}), ...values });
  }
  reset() {
    this.sql?.clear();
    if (this.sql) this.sql.fail = () => undefined;
    this.requests = [];
    this.serve = async () => ({ status: 404, body: "{}" });
  }
  async close() {
    this.clock.uninstall();
    await this.fake.stop();
    this.server.closeAllConnections();
    await new Promise((r) => this.server.close(r));
    await this.sql?.stop();
  }
}

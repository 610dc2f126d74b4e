// A PostgreSQL server on loopback speaking enough of the v3 wire protocol for the
// real pg/pg-promise client: start-up with clear-text password, simple and extended
// queries, errors on demand, and a complete per-session event log.
import net from "node:net";

const OID = { bool: 16, int8: 20, int4: 23, text: 25, json: 114, float8: 701, varchar: 1043, timestamptz: 1184, numeric: 1700, jsonb: 3802, "text[]": 1009, timestamp: 1114 };
let sessionSeq = 0;

export class FakePg {
  constructor(name) {
    this.name = name;
    this.sessions = [];
    this.clock = { n: 0 };
    this.acceptLogin = () => true;
    /** (session, sql, params) => {rows, fields:[{name,type}], command, error} */
    this.onQuery = () => ({ rows: [], fields: [] });
    this.server = net.createServer((s) => this.connection(s));
  }
  async start() {
    await new Promise((r) => this.server.listen(0, "127.0.0.1", r));
    this.port = this.server.address().port;
    this.uri = `127.0.0.1:${this.port}/db`;
    return this;
  }
  async stop() {
    for (const s of this.sessions) s.socket.destroy();
    await new Promise((r) => this.server.close(r));
  }
  open() {
    return this.sessions.filter((s) => !s.closed).length;
  }
  connection(socket) {
    socket.setNoDelay(true);
    const ses = { id: ++sessionSeq, server: this.name, socket, events: [], params: {}, prepared: new Map(), tx: "I", closed: false };
    this.sessions.push(ses);
    let buf = Buffer.alloc(0);
    let started = false;
    const ev = (type, extra) => ses.events.push({ type, n: ++this.clock.n, ...extra });
    socket.on("error", () => {});
    socket.on("close", () => {
      if (!ses.closed) {
        ses.closed = true;
        ev("close", { graceful: !!ses.terminated });
      }
    });
    const msg = (t, body) => {
      const b = Buffer.alloc(5 + body.length);
      b.write(t, 0);
      b.writeInt32BE(4 + body.length, 1);
      body.copy(b, 5);
      if (!socket.destroyed) socket.write(b);
    };
    const cstr = (s) => Buffer.from(s + "\0");
    const ready = () => msg("Z", Buffer.from(ses.tx));
    const error = (e) => {
      msg("E", Buffer.concat([cstr("SERROR"), cstr("VERROR"), cstr("C" + (e.code ?? "XX000")), cstr("M" + e.message), Buffer.from([0])]));
    };
    const rowDesc = (fields) => {
      const parts = [Buffer.alloc(2)];
      parts[0].writeInt16BE(fields.length);
      for (const f of fields) {
        const b = Buffer.alloc(18);
        b.writeInt32BE(0, 0);
        b.writeInt16BE(0, 4);
        b.writeInt32BE(OID[f.type] ?? 25, 6);
        b.writeInt16BE(-1, 10);
        b.writeInt32BE(-1, 12);
        b.writeInt16BE(0, 16);
        parts.push(cstr(f.name), b);
      }
      msg("T", Buffer.concat(parts));
    };
    const dataRows = (r) => {
      for (const row of r.rows ?? []) {
        const parts = [Buffer.alloc(2)];
        parts[0].writeInt16BE(r.fields.length);
        for (const f of r.fields) {
          const v = row[f.name];
          const l = Buffer.alloc(4);
          if (v === null || v === undefined) {
            l.writeInt32BE(-1);
            parts.push(l);
          } else {
            const t = Buffer.from(typeof v === "object" ? JSON.stringify(v) : v === true ? "t" : v === false ? "f" : String(v));
            l.writeInt32BE(t.length);
            parts.push(l, t);
          }
        }
        msg("D", Buffer.concat(parts));
      }
    };
    const tag = (sql, r) => r.command ?? (/^\s*select/i.test(sql) ? `SELECT ${r.rows?.length ?? 0}` : /^\s*insert/i.test(sql) ? `INSERT 0 ${r.rows?.length ?? 1}` : (/^\s*(\w+)/.exec(sql)?.[1] ?? "OK").toUpperCase());
    const txEffect = (sql) => {
      const s = sql.trim().toLowerCase();
      if (/^(begin|start transaction)/.test(s)) ses.tx = "T";
      else if (/^(commit|end)/.test(s)) ses.tx = "I";
      else if (/^rollback(?! to)/.test(s)) ses.tx = "I";
    };
    const exec = async (sql, params) => {
      ev("query", { sql, params, tx: ses.tx });
      if (ses.tx === "E" && !/^\s*(rollback|commit|end)/i.test(sql)) return { error: { message: "current transaction is aborted", code: "25P02" } };
      let r = await this.onQuery(ses, sql, params);
      r ??= {};
      if (r.destroy) {
        socket.destroy();
        return r;
      }
      if (r.error) {
        if (/^\s*commit/i.test(sql)) ses.tx = "I";
        else if (ses.tx === "T") ses.tx = "E";
        return r;
      }
      txEffect(sql);
      return { rows: [], fields: [], ...r };
    };
    let chain = Promise.resolve();
    const ext = { sql: "", params: [], name: "", failed: false };
    const dispatch = async (t, body) => {
      if (ext.failed && t !== "S" && t !== "X") return;
      switch (t) {
        case "p": {
          ses.password = body.subarray(0, body.length - 1).toString();
          if (!this.acceptLogin(ses)) {
            ev("login-refused");
            error({ message: "password authentication failed", code: "28P01" });
            socket.end();
            return;
          }
          ev("login");
          msg("R", Buffer.from([0, 0, 0, 0]));
          msg("S", Buffer.concat([cstr("server_version"), cstr("16.0")]));
          msg("S", Buffer.concat([cstr("client_encoding"), cstr("UTF8")]));
          msg("S", Buffer.concat([cstr("standard_conforming_strings"), cstr("on")]));
          msg("K", Buffer.from([0, 0, 0, 1, 0, 0, 0, 1]));
          ready();
          return;
        }
        case "Q": {
          const sql = body.subarray(0, body.length - 1).toString();
          const r = await exec(sql, []);
          if (r.destroy) return;
          if (r.error) error(r.error);
          else {
            if (r.fields.length) {
              rowDesc(r.fields);
              dataRows(r);
            }
            msg("C", cstr(tag(sql, r)));
          }
          ready();
          return;
        }
        case "P": {
          const z1 = body.indexOf(0);
          const name = body.subarray(0, z1).toString();
          const z2 = body.indexOf(0, z1 + 1);
          ses.prepared.set(name, body.subarray(z1 + 1, z2).toString());
          if (name) ev("prepare", { name });
          msg("1", Buffer.alloc(0));
          return;
        }
        case "B": {
          let o = body.indexOf(0) + 1;
          const z = body.indexOf(0, o);
          ext.sql = ses.prepared.get(body.subarray(o, z).toString()) ?? "";
          o = z + 1;
          const nf = body.readInt16BE(o);
          o += 2 + nf * 2;
          const np = body.readInt16BE(o);
          o += 2;
          ext.params = [];
          for (let i = 0; i < np; i++) {
            const l = body.readInt32BE(o);
            o += 4;
            if (l < 0) ext.params.push(null);
            else {
              ext.params.push(body.subarray(o, o + l).toString());
              o += l;
            }
          }
          msg("2", Buffer.alloc(0));
          return;
        }
        case "D":
          ext.described = true;
          return;
        case "E": {
          const r = await exec(ext.sql, ext.params);
          if (r.destroy) return;
          if (r.error) {
            error(r.error);
            ext.failed = true;
          } else {
            if (r.fields.length) {
              rowDesc(r.fields);
              dataRows(r);
            } else if (ext.described) msg("n", Buffer.alloc(0));
            msg("C", cstr(tag(ext.sql, r)));
          }
          ext.described = false;
          return;
        }
        case "C":
          msg("3", Buffer.alloc(0));
          return;
        case "S":
          ext.failed = false;
          ready();
          return;
        case "X":
          ses.terminated = true;
          ev("terminate");
          socket.end();
          return;
        default:
          return;
      }
    };
    socket.on("data", (d) => {
      buf = Buffer.concat([buf, d]);
      for (;;) {
        if (!started) {
          if (buf.length < 8) return;
          const len = buf.readInt32BE(0);
          if (buf.length < len) return;
          const code = buf.readInt32BE(4);
          const body = buf.subarray(8, len);
          buf = buf.subarray(len);
          if (code === 80877103) {
            socket.write("N");
            continue;
          }
          const parts = body.toString().split("\0");
          for (let i = 0; i + 1 < parts.length && parts[i]; i += 2) ses.params[parts[i]] = parts[i + 1];
          started = true;
          ev("startup", { params: { ...ses.params } });
          msg("R", Buffer.from([0, 0, 0, 3]));
          continue;
        }
        if (buf.length < 5) return;
        const len = buf.readInt32BE(1);
        if (buf.length < 1 + len) return;
        const t = String.fromCharCode(buf[0]);
        const body = Buffer.from(buf.subarray(5, 1 + len));
        buf = buf.subarray(1 + len);
        chain = chain.then(() => dispatch(t, body));
      }
    });
  }
}

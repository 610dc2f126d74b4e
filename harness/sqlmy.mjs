// A MySQL stand-in behind mysql2/promise: pools of connections, transactions and prepared
// statements as documented, the SQL executed by SQLite in memory after translation. A
// transaction holds a lock; statements of other connections wait until it is over.
import { createRequire } from "node:module";
process.removeAllListeners("warning");
const { DatabaseSync } = createRequire(import.meta.url)("node:sqlite");

const pad = (n, w = 2) => String(n).padStart(w, "0");
const DAY = 86400e3;
const UNIT = { SECOND: 1e3, MINUTE: 6e4, HOUR: 36e5, DAY, WEEK: 7 * DAY };
export const myTime = (ms) => {
  const s = new Date(ms).toISOString().replace("T", " ").replace("Z", "");
  return s.endsWith(".000") ? s.slice(0, -4) : s;
};
const tick = () => new Promise((r) => setImmediate(r));
/** text outside of quotes, and quoted text */
const pieces = (sql) => sql.split(/('(?:[^'\\]|\\.|'')*'|"(?:[^"\\]|\\.)*")/);
const outside = (sql, f) => pieces(sql).map((p, i) => (i % 2 ? p : f(p))).join("");
const fail = (message, code, more = {}) => Object.assign(new Error(message), { code, ...more });

export class SqlMy {
  constructor(ddl, { now }) {
    this.ddl = ddl;
    this.now = now;
    this.pools = [];
    this.unsupported = [];
    this.fault = () => undefined;
    this.inUse = 0;
    this.most = 0;
    this.statements = 0;
    this.queue = [];
    this.owner = undefined;
    globalThis.__mysql = this;
    this.clear();
  }
  clear() {
    this.db?.close();
    const d = (this.db = new DatabaseSync(":memory:"));
    const N = (f) => Object.defineProperty((...a) => (a[0] === null ? null : f(...a)), "length", { value: f.length });
    d.function("_now", () => myTime(Math.floor(this.now() / 1000) * 1000));
    d.function("_ago", (n, unit) => myTime(Math.floor(this.now() / 1000) * 1000 - Number(n) * UNIT[unit.toUpperCase()]));
    d.function("reverse", N((s) => [...String(s)].reverse().join("")));
    d.function("export_set", { varargs: true }, N((bits, on, off, sep = ",", n = 64) => Array.from({ length: Number(n) }, (_, i) => ((BigInt(bits) >> BigInt(i)) & 1n ? on : off)).join(sep)));
    d.function("date_format", N((v, f) => {
      const m = /^(?:(\d{4})-(\d\d)-(\d\d))?[ ]?(?:(\d\d?):(\d\d)(?::(\d\d)(?:\.\d+)?)?)?$/.exec(String(v));
      if (!m) throw new Error(`Incorrect DATETIME value: '${v}'`);
      const [, Y = "0000", M = "00", D = "00", h = "0", i = "00", s = "00"] = m;
      const out = { Y, m: M, d: D, H: pad(h), k: String(Number(h)), i, s, S: s, T: `${pad(h)}:${i}:${s}`, e: String(Number(D)), c: String(Number(M)), y: Y.slice(2), "%": "%" };
      return String(f).replace(/%(.)/g, (x, c) => {
        if (!(c in out)) throw new Error("unsupported date format " + x);
        return out[c];
      });
    }));
    d.exec(this.ddl);
    this.fault = () => undefined;
    this.inUse = 0;
    this.queue = [];
    this.owner = undefined;
  }
  insert(table, rows) {
    for (const r of [rows].flat()) {
      const k = Object.keys(r);
      this.db.prepare(`insert into ${table}(${k.join(",")}) values(${k.map(() => "?").join(",")})`).run(...k.map((c) => (typeof r[c] === "boolean" ? Number(r[c]) : (r[c] ?? null))));
    }
  }
  all(sql, ...p) {
    return this.db.prepare(sql).all(...p).map((r) => ({ ...r }));
  }
  createPool(options) {
    const pool = { options, free: [], count: 0, waiting: [], ended: false };
    this.pools.push(pool);
    const my = this;
    const give = () => {
      const c = pool.free.pop() ?? new Conn(my, pool);
      c.leased = true;
      my.inUse++;
      my.most = Math.max(my.most, my.inUse);
      return c;
    };
    pool.back = (c) => {
      my.inUse--;
      if (c.dead) pool.count--;
      else pool.free.push(c);
      const w = pool.waiting.shift();
      if (w) {
        if (!pool.free.length) pool.count++;
        w(give());
      }
    };
    const getConnection = async () => {
      await tick();
      if (pool.ended) throw fail("Pool is closed.", "POOL_CLOSED");
      const f = my.fault("connect", "");
      if (f) throw fail(f.message ?? "connect ECONNREFUSED", f.code ?? "ECONNREFUSED");
      if (!pool.free.length && pool.count >= (options.connectionLimit ?? 10)) {
        if (options.waitForConnections === false) throw fail("No connections available.", "POOL_CONNLIMIT");
        return new Promise((r) => pool.waiting.push(r));
      }
      if (!pool.free.length) pool.count++;
      return give();
    };
    const once = (how) => async (sql, values) => {
      const c = await getConnection();
      try {
        return await c[how](sql, values);
      } finally {
        c.release();
      }
    };
    return { getConnection, query: once("query"), execute: once("execute"), end: async () => void (pool.ended = true), on: () => undefined };
  }
  /** wait for the transaction of another connection */
  async turn(conn, f) {
    const t0 = performance.now();
    while (this.owner && this.owner !== conn) {
      if (performance.now() - t0 > 4000) throw fail("Lock wait timeout exceeded; try restarting transaction", "ER_LOCK_WAIT_TIMEOUT", { errno: 1205 });
      await new Promise((r) => {
        const t = setTimeout(r, 100);
        this.queue.push(() => (clearTimeout(t), r()));
      });
    }
    // at once, so that no other connection gets in between
    return f();
  }
  over(conn) {
    if (this.owner === conn) {
      this.owner = undefined;
      for (const w of this.queue.splice(0)) w();
    }
  }
  run(sql, conn) {
    this.statements++;
    const text = translate(sql);
    let stmt;
    try {
      stmt = this.db.prepare(text);
    } catch (e) {
      // a statement MySQL refuses too, or one this translation does not know
      if (!/VALUES\s*(\(\s*\)|NULL|\?)?\s*$/i.test(sql.trim())) this.unsupported.push({ sql, message: e.message });
      throw fail(e.message, "ER_PARSE_ERROR", { errno: 1064 });
    }
    void conn;
    try {
      const cols = stmt.columns();
      if (cols.length) {
        const rows = stmt.all().map((r) => Object.fromEntries(cols.map((c) => [c.name, value(r[c.name], c)])));
        return [rows, cols];
      }
      const r = stmt.run();
      return [{ affectedRows: Number(r.changes), insertId: 0, changedRows: Number(r.changes), warningStatus: 0, info: "" }, undefined];
    } catch (e) {
      if (/UNIQUE|PRIMARY KEY/.test(e.message)) throw fail(e.message, "ER_DUP_ENTRY", { errno: 1062 });
      if (/constraint failed/.test(e.message)) throw fail(e.message, "ER_BAD_NULL_ERROR", { errno: 1048 });
      throw fail(e.message, "ER_UNKNOWN", {});
    }
  }
}
function value(v, c) {
  if (v === null) return null;
  if (/^(datetime|timestamp)/i.test(c.type ?? "")) return new Date(String(v).replace(" ", "T") + "Z");
  // mysql2 gives JSON values parsed
  if (c.column === null && typeof v === "string" && /^[{[].*[\]}]$/s.test(v)) return JSON.parse(v);
  return v;
}
function literal(v, strict) {
  if (v === undefined && strict) throw new TypeError("Bind parameters must not contain undefined. To pass SQL NULL specify JS null");
  if (v === null || v === undefined) return "NULL";
  if (typeof v === "boolean") return v ? "true" : "false";
  if (typeof v === "number" || typeof v === "bigint") {
    if (Number.isNaN(v)) throw fail("Unknown column 'NaN' in 'field list'", "ER_BAD_FIELD_ERROR", { errno: 1054 });
    return String(v);
  }
  if (v instanceof Date) {
    if (Number.isNaN(v.getTime())) return "NULL";
    return `'${myTime(v.getTime())}'`;
  }
  if (Array.isArray(v)) return v.map((x) => (Array.isArray(x) ? `(${x.map((y) => literal(y)).join(", ")})` : literal(x))).join(", ");
  if (typeof v === "object") throw new Error("unsupported parameter " + JSON.stringify(v));
  let s = String(v);
  // a DATETIME without seconds is the same as with them
  if (/^\d{4}-\d\d-\d\d \d\d:\d\d$/.test(s)) s += ":00";
  return `'${s.replaceAll("'", "''")}'`;
}
function bind(sql, values, named, strict) {
  if (values === undefined || values === null) return sql;
  if (Array.isArray(values)) {
    let i = 0;
    return outside(sql, (p) => p.replace(/\?/g, () => (i < values.length ? literal(values[i++], strict) : "?")));
  }
  if (!named) throw new Error("named placeholders are not enabled");
  // comments are no placeholders' place, yet mysql2 does not know them
  return outside(sql, (p) => p.replace(/\bb:(\w+)/g, (_, k) => {
    const v = values[k];
    if (!/^[01]+$/.test(String(v))) throw fail("You have an error in your SQL syntax near b'" + v, "ER_PARSE_ERROR", { errno: 1064 });
    return String(Number.parseInt(v, 2));
  }).replace(/(?<![:\w]):([a-z_]\w*)/gi, (_, k) => literal(values[k], strict)));
}
export function translate(sql) {
  let s = outside(sql, (p) =>
    p
      .replace(/--[^\n]*/g, "")
      .replace(/\b(?:NOW|CURRENT_TIMESTAMP|SYSDATE)\s*(?:\(\s*\))?\s*-\s*INTERVAL\s+(\d+)\s+(\w+)/gi, (_, n, u) => `_ago(${n}, \u0001${u}\u0001)`)
      .replace(/\bNOW\s*\(\s*\)|\bCURRENT_TIMESTAMP\b\s*(?:\(\s*\))?/gi, "_now()")
      .replace(/\bIF\s*\(/g, "IIF("),
  ).replaceAll("\u0001", "'");
  const up = /ON\s+DUPLICATE\s+KEY\s+UPDATE([\s\S]*)$/i.exec(s);
  if (up) s = s.slice(0, up.index) + "ON CONFLICT DO UPDATE SET" + up[1].replace(/\bVALUES\s*\(\s*(\w+)\s*\)/gi, "excluded.$1");
  const del = /^\s*DELETE\s+FROM\s+(\w+)\s+(WHERE[\s\S]*?)\s+LIMIT\s+(\d+)\s*;?\s*$/i.exec(s);
  if (del) s = `DELETE FROM ${del[1]} WHERE rowid IN (SELECT rowid FROM ${del[1]} ${del[2]} LIMIT ${del[3]})`;
  return s;
}

class Conn {
  constructor(my, pool) {
    Object.assign(this, { my, pool, tx: false, dead: false, leased: false });
    this.config = pool.options;
  }
  async step(kind, sql, f) {
    await tick();
    if (!this.leased) throw fail("Connection was released already", "PROTOCOL_CONNECTION_LOST");
    if (this.dead) throw fail("Can't add new command when connection is in closed state", "PROTOCOL_CONNECTION_LOST", { fatal: true });
    const x = this.my.fault(kind, sql, this);
    if (x) {
      if (x.destroy) {
        this.undo();
        this.dead = true;
        throw fail("Connection lost: The server closed the connection.", "PROTOCOL_CONNECTION_LOST", { fatal: true });
      }
      // the server ends the transaction of a deadlock's victim
      if (x.code === "ER_LOCK_DEADLOCK" || kind === "commit") this.undo();
      throw fail(x.message ?? x.code, x.code ?? "ER_UNKNOWN");
    }
    return f();
  }
  undo() {
    if (this.tx) {
      this.my.db.exec("ROLLBACK");
      this.tx = false;
      this.my.over(this);
    }
  }
  async beginTransaction() {
    return this.step("begin", "START TRANSACTION", async () => {
      if (this.tx) await this.commit();
      await this.my.turn(this, () => {
        this.my.db.exec("BEGIN");
        this.my.owner = this;
        this.tx = true;
      });
    });
  }
  async commit() {
    return this.step("commit", "COMMIT", () => {
      if (!this.tx) return;
      this.my.db.exec("COMMIT");
      this.tx = false;
      this.my.over(this);
    });
  }
  async rollback() {
    return this.step("rollback", "ROLLBACK", () => this.undo());
  }
  async query(sql, values) {
    const text = typeof sql === "object" ? sql.sql : sql;
    return this.step("query", text, async () => {
      const bound = bind(text, values, this.pool.options.namedPlaceholders, false);
      return this.my.turn(this, () => this.my.run(bound, this));
    });
  }
  async execute(sql, values) {
    const text = typeof sql === "object" ? sql.sql : sql;
    return this.step("query", text, async () => {
      const bound = bind(text, values, this.pool.options.namedPlaceholders, true);
      return this.my.turn(this, () => this.my.run(bound, this));
    });
  }
  async ping() {
    return this.step("query", "ping", () => undefined);
  }
  release() {
    if (!this.leased) return;
    // what is left of a transaction stays on the connection, as with mysql2
    this.leased = false;
    this.pool.back(this);
  }
  destroy() {
    this.undo();
    this.dead = true;
    this.release();
  }
  async end() {
    this.destroy();
  }
}

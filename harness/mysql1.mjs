// A MySQL stand-in behind the mysql package: single connections with callbacks, values put
// into statements by the driver; the SQL is executed by SQLite in memory after translation.
import { createRequire } from "node:module";
process.removeAllListeners("warning");
const { DatabaseSync } = createRequire(import.meta.url)("node:sqlite");

/** text outside of quotes, and quoted text */
const outside = (sql, f) => sql.split(/('(?:[^'\\]|\\.|'')*')/).map((p, i) => (i % 2 ? p : f(p))).join("");

export class MySql1 {
  constructor() {
    this.db = new DatabaseSync(":memory:");
    this.fault = () => false;
    this.unsupported = [];
    this.open = 0;
    this.connections = [];
    this.statements = 0;
    globalThis.__mysql1 = this;
  }
  all(sql, ...p) {
    return this.db.prepare(sql).all(...p).map((r) => ({ ...r }));
  }
  tables() {
    return this.all("select name from sqlite_master where type='table' and name not like 'sqlite_%' order by 1").map((t) => t.name);
  }
  createConnection(options) {
    const my = this;
    const c = { options, ended: false, used: false };
    this.connections.push(c);
    this.open++;
    c.connect = (cb) => setImmediate(() => cb?.(null));
    c.on = () => c;
    c.query = function (sql, values, cb) {
      if (typeof values === "function") [cb, values] = [values, undefined];
      if (typeof sql === "object") [sql, values] = [sql.sql, sql.values ?? values];
      c.used = true;
      setImmediate(() => {
        let r;
        try {
          if (c.ended) throw Object.assign(new Error("Cannot enqueue Query after invoking quit."), { code: "PROTOCOL_ENQUEUE_AFTER_QUIT" });
          r = my.run(sql, values ?? []);
        } catch (e) {
          cb?.(e);
          return;
        }
        cb?.(null, r, []);
      });
    };
    c.end = (cb) => setImmediate(() => {
      if (!c.ended) my.open--;
      c.ended = true;
      cb?.(null);
    });
    c.destroy = () => c.end();
    return c;
  }
  run(sql, values) {
    this.statements++;
    if (this.fault(sql)) throw Object.assign(new Error("ER_LOCK_DEADLOCK: Deadlock found"), { code: "ER_LOCK_DEADLOCK", errno: 1213 });
    const v = [...values];
    const bind = [];
    let q = outside(sql, (p) =>
      p.replace(/\?\?|\?/g, (m) => {
        if (!v.length) throw new Error("ER_PARSE_ERROR: more placeholders than values");
        const x = v.shift();
        if (m === "??") return "`" + String(x).replaceAll("`", "``") + "`";
        bind.push(x instanceof Date ? x.toISOString().slice(0, 19).replace("T", " ") : typeof x === "boolean" ? Number(x) : (x ?? null));
        return "?";
      }),
    );
    if (/^\s*show\s+tables\s*;?\s*$/i.test(q)) return this.tables().map((name) => ({ Tables_in_db: name }));
    q = outside(q, (p) =>
      p
        .replace(/\bint\s+unsigned\b|\bint\b|\bbigint\b/gi, "INTEGER")
        .replace(/\bauto_increment\b/gi, "")
        .replace(/(`\w+`|\b\w+)\s+varchar\((\d+)\)((?:\s+not)?(?:\s+null)?)/gi, "$1 VARCHAR($2) COLLATE NOCASE $3 CHECK(length($1)<=$2)")
        .replace(/(`\w+`)\(\d+\)(?=\s*,)/g, "$1"),
    );
    if (/^\s*create\s+index/i.test(q)) q = q.replace(/create\s+index\s+(\w+)/i, "create index if not exists $1");
    const st = (() => {
      try {
        return this.db.prepare(q);
      } catch (e) {
        if (/no such table/.test(e.message)) throw Object.assign(new Error("ER_NO_SUCH_TABLE: " + e.message), { code: "ER_NO_SUCH_TABLE" });
        if (/already exists/.test(e.message)) throw Object.assign(new Error("ER_TABLE_EXISTS_ERROR: " + e.message), { code: "ER_TABLE_EXISTS_ERROR" });
        this.unsupported.push({ sql, error: e.message });
        throw e;
      }
    })();
    if (!/^\s*(select|with)/i.test(q)) {
      const x = st.run(...bind);
      return { affectedRows: Number(x.changes), insertId: Number(x.lastInsertRowid) };
    }
    const cols = st.columns();
    return st.all(...bind).map((r) =>
      Object.fromEntries(
        cols.map((c) => {
          const x = r[c.name];
          if (x === null || x === undefined) return [c.name, null];
          if (/^date$/i.test(c.type ?? "") && typeof x === "string") return [c.name, new Date(`${x}T00:00:00`)];
          // JSON arrives as text
          if (/^json$/i.test(c.type ?? "")) return [c.name, String(x)];
          return [c.name, x];
        }),
      ),
    );
  }
}

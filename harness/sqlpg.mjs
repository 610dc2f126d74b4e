// A PostgreSQL stand-in that really executes the SQL of the code under test: the wire
// protocol is FakePg's, the engine is SQLite in memory. Statements are translated from
// the PostgreSQL dialect; timestamps are kept as integer milliseconds, geometries as
// GeoJSON text. A transaction holds a lock, so other sessions wait until it is over.
import { createRequire } from "node:module";
import fs from "node:fs";
import os from "node:os";
import path from "node:path";
import { FakePg } from "./fakepg.mjs";

process.removeAllListeners("warning");
const { DatabaseSync } = createRequire(import.meta.url)("node:sqlite");

const ISO = /^\d{4}-\d\d-\d\d[T ]\d\d:\d\d(:\d\d(\.\d+)?)?(Z|[+-]\d\d(:?\d\d)?)?$/;
const isoMs = (s) => {
  let t = s.replace(" ", "T");
  const z = /[+-]\d\d$/.exec(t);
  if (z) t += ":00";
  else if (!/(Z|[+-]\d\d:?\d\d)$/.test(t)) t += "Z";
  return Date.parse(t);
};
const JTAG = "\u0001";
const ATAG = "\u0003";
const HUGE = 9e15;
const UNIT = { ms: 1, millisecond: 1, second: 1e3, sec: 1e3, s: 1e3, minute: 6e4, min: 6e4, hour: 36e5, h: 36e5, day: 864e5, week: 6048e5, month: 2592e6, mon: 2592e6, year: 31557600e3 };
export function interval(text) {
  let ms = 0;
  for (const m of String(text).matchAll(/(-?[\d.]+)\s*([a-z]+)/gi)) {
    const u = m[2].toLowerCase();
    ms += Number(m[1]) * (UNIT[u] ?? UNIT[u.replace(/s$/, "")] ?? NaN);
  }
  return ms;
}

// ---- geometry -------------------------------------------------------------------
function parseGeom(x) {
  if (x === null || x === undefined) return null;
  const s = String(x).replace(/^SRID=\d+;/i, "").replace(JTAG, "");
  if (s.startsWith("{")) return JSON.parse(s);
  const m = /^\s*([A-Z]+)(?:\s*Z)?\s*(\(.*\)|EMPTY)\s*$/is.exec(s);
  if (!m) throw new Error("parse error - invalid geometry: " + s);
  const names = { POINT: "Point", LINESTRING: "LineString", POLYGON: "Polygon", MULTIPOINT: "MultiPoint", MULTILINESTRING: "MultiLineString", MULTIPOLYGON: "MultiPolygon", GEOMETRYCOLLECTION: "GeometryCollection" };
  const type = names[m[1].toUpperCase()];
  if (type === "GeometryCollection") return { type, geometries: splitTop(m[2].slice(1, -1)).map(parseGeom) };
  if (/EMPTY/i.test(m[2])) return { type, coordinates: [] };
  const nested = JSON.parse(m[2].replace(/[-\d.eE+]+(\s+[-\d.eE+]+)+/g, (p) => "[" + p.trim().split(/\s+/).join(",") + "]").replaceAll("(", "[").replaceAll(")", "]"));
  const one = (c) => (Array.isArray(c[0]) && c.length === 1 && typeof c[0][0] === "number" ? c[0] : c);
  return { type, coordinates: type === "Point" ? nested[0] : type === "MultiPoint" ? nested.map(one) : nested };
}
const mapCoords = (c, f) => (typeof c[0] === "number" ? f(c) : c.map((x) => mapCoords(x, f)));
/** a geometry as the database sends it: well-known binary with a reference system */
function wkb(g, srid = 4326) {
  const types = { Point: 1, LineString: 2, Polygon: 3, MultiPoint: 4, MultiLineString: 5, MultiPolygon: 6 };
  const u32 = (v) => { const b = Buffer.alloc(4); b.writeUInt32LE(v >>> 0); return b; };
  const pt = (c) => { const b = Buffer.alloc(16); b.writeDoubleLE(c[0], 0); b.writeDoubleLE(c[1], 8); return b; };
  const list = (a, f) => Buffer.concat([u32(a.length), ...a.map(f)]);
  const body = { Point: pt, LineString: (c) => list(c, pt), Polygon: (c) => list(c, (r) => list(r, pt)), MultiPoint: (c) => list(c, (x) => wkb({ type: "Point", coordinates: x }, 0)), MultiLineString: (c) => list(c, (x) => wkb({ type: "LineString", coordinates: x }, 0)), MultiPolygon: (c) => list(c, (x) => wkb({ type: "Polygon", coordinates: x }, 0)) };
  return Buffer.concat([Buffer.from([1]), u32(types[g.type] + (srid ? 0x20000000 : 0)), ...(srid ? [u32(srid)] : []), body[g.type](g.coordinates)]);
}
const geomMap = (g, f) => (g.type === "GeometryCollection" ? { ...g, geometries: g.geometries.map((x) => geomMap(x, f)) } : { ...g, coordinates: g.coordinates.length ? mapCoords(g.coordinates, f) : g.coordinates });
const G = (f) => (x, ...r) => (x === null ? null : JSON.stringify(f(parseGeom(x), ...r)));
export function haversineM(a, b) {
  const R = 6371008.8;
  const rad = Math.PI / 180;
  const dLat = (b[1] - a[1]) * rad;
  const dLon = (b[0] - a[0]) * rad;
  const h = Math.sin(dLat / 2) ** 2 + Math.cos(a[1] * rad) * Math.cos(b[1] * rad) * Math.sin(dLon / 2) ** 2;
  return 2 * R * Math.asin(Math.sqrt(h));
}
function segmentDistanceM(p, a, b) {
  const k = Math.cos(((p[1] + a[1] + b[1]) / 3) * (Math.PI / 180));
  const M = 111195;
  const P = [p[0] * k * M, p[1] * M];
  const A = [a[0] * k * M, a[1] * M];
  const B = [b[0] * k * M, b[1] * M];
  const d = [B[0] - A[0], B[1] - A[1]];
  const l = d[0] ** 2 + d[1] ** 2;
  const t = l ? Math.max(0, Math.min(1, ((P[0] - A[0]) * d[0] + (P[1] - A[1]) * d[1]) / l)) : 0;
  return Math.hypot(P[0] - A[0] - t * d[0], P[1] - A[1] - t * d[1]);
}
export function distanceToLineM(p, line) {
  if (line.length === 1) return haversineM(p, line[0]);
  let best = Infinity;
  for (let i = 1; i < line.length; i++) best = Math.min(best, segmentDistanceM(p, line[i - 1], line[i]));
  return best;
}
function pointInRing(p, ring) {
  let inside = false;
  for (let i = 0, j = ring.length - 1; i < ring.length; j = i++) {
    const [xi, yi] = ring[i];
    const [xj, yj] = ring[j];
    if (yi > p[1] !== yj > p[1] && p[0] < ((xj - xi) * (p[1] - yi)) / (yj - yi) + xi) inside = !inside;
  }
  return inside;
}
function intersects(a, b) {
  const A = parseGeom(a);
  const B = parseGeom(b);
  const [p, g] = A.type === "Point" ? [A, B] : [B, A];
  if (p.type !== "Point") throw new Error("st_intersects: only points are supported");
  if (g.type === "Buffer") {
    const c = g.of.type === "Point" ? [g.of.coordinates] : g.of.coordinates;
    return distanceToLineM(p.coordinates, c) <= g.dist ? 1 : 0;
  }
  if (g.type === "Polygon") return pointInRing(p.coordinates, g.coordinates[0]) && !g.coordinates.slice(1).some((r) => pointInRing(p.coordinates, r)) ? 1 : 0;
  if (g.type === "Point") return p.coordinates[0] === g.coordinates[0] && p.coordinates[1] === g.coordinates[1] ? 1 : 0;
  throw new Error("st_intersects: unsupported " + g.type);
}

// ---- translation ------------------------------------------------------------------
function splitTop(s) {
  const out = [];
  let depth = 0;
  let cur = "";
  for (const ch of s) {
    if (ch === "(" || ch === "[") depth++;
    if (ch === ")" || ch === "]") depth--;
    if (ch === "," && depth === 0) {
      out.push(cur);
      cur = "";
    } else cur += ch;
  }
  if (cur.trim()) out.push(cur);
  return out.map((x) => x.trim());
}
function closing(s, open) {
  let d = 0;
  for (let i = open; i < s.length; i++) {
    if (s[i] === "(") d++;
    if (s[i] === ")" && --d === 0) return i;
  }
  return -1;
}
/** rewrite x::type, where x is a name, parameter, literal or parenthesised expression */
function casts(s) {
  for (;;) {
    const i = s.indexOf("::");
    if (i < 0) return s;
    const t = /^::\s*([a-z_0-9]+)(\s+varying|\s+precision|\s+with(?:out)?\s+time\s+zone)?(\s*\(\s*\d+(?:\s*,\s*\d+)?\s*\))?(\[\])?/i.exec(s.slice(i));
    if (!t) throw new Error("unsupported cast near " + s.slice(i, i + 30));
    let j = i;
    while (j > 0 && /\s/.test(s[j - 1])) j--;
    if (s[j - 1] === ")") {
      let d = 0;
      do {
        j--;
        if (s[j] === ")") d++;
        if (s[j] === "(") d--;
      } while (d > 0);
    }
    while (j > 0 && /[\w$.?"\u0002]/.test(s[j - 1])) j--;
    const x = s.slice(j, i).trim();
    const fn = { json: "_json", jsonb: "_json", interval: "_iv", geometry: "_geom", geography: "_geom", bigint: "_int", int: "_int", integer: "_int", int8: "_int", int4: "_int", float8: "_num", numeric: "_num", date: "_date" }[t[1].toLowerCase()];
    s = s.slice(0, j) + (fn ? `${fn}(${x})` : ` ${x} `) + s.slice(i + t[0].length);
  }
}

export class SqlPg {
  /** ddl: SQLite statements whose column types are PostgreSQL names */
  constructor(ddl, { now = () => Date.now(), name = "sql", readers = false } = {}) {
    this.now = now;
    if (readers) {
      // readers do not wait for a writer: they see the last committed state
      this.dir = fs.mkdtempSync(path.join(fs.existsSync("/dev/shm") ? "/dev/shm" : os.tmpdir(), "verif-sql-"));
      process.on("exit", () => fs.rmSync(this.dir, { recursive: true, force: true }));
      this.db = new DatabaseSync(path.join(this.dir, "db"));
      this.db.exec("pragma journal_mode = wal; pragma synchronous = off");
      this.reader = new DatabaseSync(path.join(this.dir, "db"));
    } else this.db = new DatabaseSync(":memory:");
    this.seq = new Map();
    this.iso = new Map();
    this.unsupported = [];
    this.fail = () => undefined;
    this.log = [];
    this.waiting = [];
    this.holder = undefined;
    this.functions(this.db);
    if (this.reader) this.functions(this.reader);
    this.db.exec(ddl);
    this.columns = new Map();
    for (const t of this.db.prepare("select name from sqlite_master where type='table'").all())
      for (const c of this.db.prepare(`pragma table_info("${t.name}")`).all()) if (!this.columns.has(c.name)) this.columns.set(c.name, c.type);
    this.pg = new FakePg(name);
    this.pg.onQuery = (ses, sql, params) => this.query(ses, sql, params);
    this.translated = new Map();
  }
  async start() {
    await this.pg.start();
    this.uri = this.pg.uri;
    return this;
  }
  async stop() {
    await this.pg.stop();
    this.reader?.close();
    this.db.close();
    if (this.dir) fs.rmSync(this.dir, { recursive: true, force: true });
  }
  /** empty every table */
  clear() {
    this.db.exec("pragma foreign_keys = off");
    for (const t of this.db.prepare("select name from sqlite_master where type='table'").all()) this.db.exec(`delete from "${t.name}"`);
    this.db.exec("pragma foreign_keys = on");
    this.log = [];
    this.holder = undefined;
    this.waiting = [];
    for (const s of this.pg.sessions) s.socket.destroy();
    this.pg.sessions = [];
  }
  env(extra = {}) {
    Object.assign(process.env, { DB_USER: "u", DB_PASS: "p", DB_URI: this.uri, DB_RO_URI: this.uri, DB_APPLICATION: "app" }, extra);
  }
  /** direct access for the oracle: plain SQLite */
  all(sql, ...params) {
    return this.db.prepare(sql).all(...params).map((r) => ({ ...r }));
  }
  insert(table, rows) {
    for (const r of [rows].flat()) {
      const k = Object.keys(r);
      this.db.prepare(`insert into ${table}(${k.join(",")}) values(${k.map(() => "?").join(",")})`).run(...k.map((x) => { const v = r[x]; return v === undefined ? null : v instanceof Date ? v.getTime() : typeof v === "boolean" ? Number(v) : v !== null && typeof v === "object" ? JSON.stringify(v) : v; }));
    }
  }
  functions(d) {
    const fn = (n, f) => d.function(n, { varargs: true, deterministic: false }, (...a) => {
      const r = f(...a);
      return r === undefined ? null : typeof r === "boolean" ? Number(r) : r;
    });
    fn("now", () => this.now());
    fn("_today", () => Math.floor(this.now() / 864e5) * 864e5);
    fn("_date", (x) => (x === null ? null : Math.floor((typeof x === "string" ? isoMs(x) : x) / 864e5) * 864e5));
    fn("_iv", (x) => (x === null ? null : interval(x)));
    fn("_int", (x) => (x === null ? null : Math.trunc(Number(x))));
    fn("_num", (x) => (x === null ? null : Number(x)));
    fn("_json", (x) => (x === null ? null : String(x).startsWith(JTAG) ? x : JTAG + x));
    fn("_geom", (x) => (x === null ? null : JSON.stringify(parseGeom(x))));
    fn("_b", (x) => (x === null ? null : JTAG + (x ? "true" : "false")));
    fn("_ts", (x) => (x === null ? null : new Date(Number(x)).toISOString().replace("Z", "+00:00")));
    fn("_arr", (x) => (x === null ? null : String(x).startsWith(ATAG) ? String(x).slice(1) : pgArray(String(x))));
    fn("_mkarr", (...x) => ATAG + JSON.stringify(x));
    fn("_arrj", (x) => (x === null ? null : String(x).startsWith(ATAG) ? x : ATAG + pgArray(String(x))));
    fn("nextval", (x) => { this.seq.set(x, (this.seq.get(x) ?? 0) + 1); return this.seq.get(x); });
    fn("to_timestamp", (x) => (x === null ? null : Number(x) * 1000));
    fn("_to_char", (x) => (x === null ? null : new Date(Number(x)).toISOString().replace(/\.\d+Z$/, "Z")));
    fn("string_to_array", (x, sep) => (x === null ? null : ATAG + JSON.stringify(String(x) === "" ? [] : String(x).split(sep))));
    const jv = (v) => (v === null ? null : typeof v === "bigint" ? Number(v) : typeof v === "string" && v.startsWith(JTAG) ? JSON.parse(v.slice(1)) : typeof v === "string" && v.startsWith(ATAG) ? JSON.parse(v.slice(1)) : v);
    fn("json_build_object", (...a) => {
      const o = {};
      for (let i = 0; i + 1 < a.length; i += 2) o[a[i]] = jv(a[i + 1]);
      return JTAG + JSON.stringify(o);
    });
    const agg = (name, tag) => d.aggregate(name, { start: () => [], step: (acc, v) => { acc.push(jv(v)); return acc; }, result: (acc) => (acc.length ? tag + JSON.stringify(acc) : null) });
    agg("json_agg", JTAG);
    agg("array_agg", ATAG);
    fn("st_geomfromgeojson", G((g) => g));
    fn("st_geomfromtext", G((g) => g));
    fn("st_setsrid", G((g) => g));
    fn("st_transform", G((g) => g));
    fn("st_force3d", G((g) => geomMap(g, (c) => (c.length > 2 ? c : [...c, 0]))));
    fn("st_force2d", G((g) => geomMap(g, (c) => c.slice(0, 2))));
    fn("st_snaptogrid", G((g, s) => geomMap(g, (c) => c.map((v) => Number((Math.round(v / s) * s).toFixed(9))))));
    fn("st_simplify", G((g) => g));
    fn("st_buffer", G((g, m) => ({ type: "Buffer", of: g, dist: Number(m) })));
    fn("st_isempty", (x) => (x === null ? null : parseGeom(x).coordinates?.length === 0));
    fn("st_startpoint", G((g) => ({ type: "Point", coordinates: g.coordinates[0] })));
    fn("st_geometrytype", (x) => (x === null ? null : "ST_" + parseGeom(x).type));
    fn("st_asgeojson", (x) => (x === null ? null : JSON.stringify(parseGeom(x))));
    fn("st_point", (x, y) => JSON.stringify({ type: "Point", coordinates: [Number(x), Number(y)] }));
    fn("st_makepoint", (x, y) => JSON.stringify({ type: "Point", coordinates: [Number(x), Number(y)] }));
    fn("st_x", (x) => (x === null ? null : parseGeom(x).coordinates[0]));
    fn("st_y", (x) => (x === null ? null : parseGeom(x).coordinates[1]));
    fn("st_intersects", (a, b) => (a === null || b === null ? null : intersects(a, b)));
    fn("st_makeline", (a, b) => {
      const pts = (g) => (g.type === "Point" ? [g.coordinates] : g.coordinates);
      return JSON.stringify({ type: "LineString", coordinates: [...pts(parseGeom(a)), ...pts(parseGeom(b))] });
    });
  }
  translate(sql) {
    const hit = this.translated.get(sql);
    if (hit) return hit;
    const lits = [];
    let s = "";
    for (let i = 0; i < sql.length; ) {
      if (sql[i] === "'") {
        let j = i + 1;
        for (;;) {
          j = sql.indexOf("'", j);
          if (j < 0) throw new Error("unterminated literal");
          if (sql[j + 1] === "'") j += 2;
          else break;
        }
        s += `\u0002${lits.length}\u0002`;
        lits.push(sql.slice(i + 1, j).replaceAll("''", "'"));
        i = j + 1;
      } else if (sql.startsWith("--", i)) {
        const e = sql.indexOf("\n", i);
        i = e < 0 ? sql.length : e;
      } else if (sql.startsWith("/*", i)) i = sql.indexOf("*/", i) + 2;
      else s += sql[i++];
    }
    s = s.trim().replace(/;\s*$/, "");
    s = s.replace(/\bpublic\./gi, "");
    s = s.replace(/\binterval\s+(\u0002\d+\u0002)/gi, "_iv($1)");
    s = s.replace(/\b(?:timestamptz|timestamp(?:\s+with(?:out)?\s+time\s+zone)?|date)\s+(?=\u0002\d+\u0002)/gi, "");
    s = s.replace(/\bcurrent_date\b/gi, "_today()").replace(/\bcurrent_timestamp\b/gi, "now()").replace(/\b(clock_timestamp|statement_timestamp|transaction_timestamp)\(\)/gi, "now()");
    s = s.replace(/\bto_char\s*\(/gi, "_to_char(").replace(/\s+at\s+time\s+zone\s+\u0002\d+\u0002/gi, "");
    s = s.replace(/\bilike\b/gi, "LIKE");
    // the other branch of an aggregate is JSON too
    for (const at of [...s.matchAll(/\bcoalesce\s*\(\s*json_agg\b/gi)].map((m) => m.index).reverse()) {
      const open = s.indexOf("(", at);
      const end = closing(s, open);
      s = s.slice(0, open) + s.slice(open, end).replace(/,\s*(\u0002\d+\u0002)\s*$/, ", _json($1)") + s.slice(end);
    }
    for (let m; (m = /\barray\s*\[([^\]]*)\]/i.exec(s)); ) s = `${s.slice(0, m.index)}_mkarr(${m[1]})${s.slice(m.index + m[0].length)}`;
    s = casts(s);
    for (let m; (m = /\bextract\s*\(\s*epoch\s+from\s+/i.exec(s)); ) {
      const open = s.indexOf("(", m.index);
      const end = closing(s, open);
      s = `${s.slice(0, m.index)}((${s.slice(m.index + m[0].length, end)})/1000.0)${s.slice(end + 1)}`;
    }
    for (let m; (m = /=\s*any\s*\(/i.exec(s)); ) {
      const open = s.indexOf("(", m.index);
      const end = closing(s, open);
      s = `${s.slice(0, m.index)} IN (SELECT value FROM json_each(_arr(${s.slice(open + 1, end)})))${s.slice(end + 1)}`;
    }
    // inserted or updated by an upsert
    if (/\bxmax\b/i.test(s)) s = s.replace(/do\s+update\s+set/i, "DO UPDATE SET xmax = 1,");
    // aliases of updated and deleted tables need AS
    s = s.replace(/\b(update\s+(?!set\b)\w+)\s+(?!set\b|as\b)(\w+)\s+set\b/i, '$1 AS "$2" SET');
    s = s.replace(/\b(delete\s+from\s+\w+)\s+(?!where\b|as\b|returning\b|using\b)(\w+)/i, "$1 AS $2");
    // distinct on
    const don = /^select\s+distinct\s+on\s*\(([^)]*)\)\s*([\s\S]*?)\sfrom\s([\s\S]*?)\sorder\s+by\s+([\s\S]*)$/i.exec(s);
    if (don) {
      const names = splitTop(don[2]).map((c) => /\bas\s+"?(\w+)"?$/i.exec(c)?.[1] ?? /(\w+)$/.exec(c)[1]);
      const alias = Object.fromEntries(splitTop(don[2]).flatMap((c) => { const m = /^([\s\S]*?)\s+as\s+(\w+)$/i.exec(c); return m ? [[m[2], m[1]]] : []; }));
      const order = splitTop(don[4]).map((o) => o.replace(/^\w+/, (w) => alias[w] ?? w)).join(", ");
      s = `SELECT ${names.join(", ")} FROM (SELECT ${don[2]}, row_number() OVER (PARTITION BY ${don[1]} ORDER BY ${order}) AS rn_ FROM ${don[3]}) WHERE rn_ = 1`;
    }
    s = this.typedJson(s);
    let del;
    const cte = /^with\s+(\w+)\s+as\s*\(\s*((?:delete|update|insert)\b[\s\S]*?returning\s+[\s\S]*?)\)\s*select\s+count\(\*\)(?:\s+as\s+(\w+))?\s+from\s+\1$/i.exec(s);
    if (cte) {
      s = cte[2];
      del = cte[3] ?? "count";
    }
    s = s.replace(/\$(\d+)/g, "?$1");
    const params = Math.max(0, ...[...s.matchAll(/\?(\d+)/g)].map((m) => Number(m[1])));
    s = s.replace(/\u0002(\d+)\u0002/g, (_, n) => {
      const v = lits[n];
      if (v === "infinity") return String(HUGE);
      if (v === "-infinity") return String(-HUGE);
      if (ISO.test(v) && v.length >= 16) return String(this.remember(v));
      return "'" + v.replaceAll("'", "''") + "'";
    });
    const out = { sql: s, count: del, params };
    this.translated.set(sql, out);
    return out;
  }
  remember(v) {
    const ms = isoMs(v);
    if (/Z$/.test(v)) this.iso.set(ms, v);
    return ms;
  }
  /** columns inside json_build_object keep their PostgreSQL representation */
  typedJson(s) {
    const re = /\bjson_build_object\s*\(/gi;
    const starts = [...s.matchAll(re)].map((m) => m.index).reverse();
    for (const at of starts) {
      const open = s.indexOf("(", at);
      const end = closing(s, open);
      const args = splitTop(s.slice(open + 1, end)).map((a, i) => {
        if (i % 2 === 0) return a;
        const c = /^(?:\w+\.)?(\w+)$/.exec(a)?.[1];
        const t = c && this.columns.get(c)?.toUpperCase();
        return t === "BOOL" ? `_b(${a})` : t?.startsWith("TIMESTAMP") ? `_ts(${a})` : t?.startsWith("JSON") ? `_json(${a})` : t === "TEXT[]" ? `_arrj(${a})` : a;
      });
      s = s.slice(0, open + 1) + args.join(", ") + s.slice(end);
    }
    return s;
  }
  bind(p) {
    if (p === null || p === undefined) return null;
    if (p === "true") return 1;
    if (p === "false") return 0;
    if (ISO.test(p) && p.length >= 16) return this.remember(p);
    if (p.startsWith("\\x")) return p;
    // PostgreSQL reads a timestamp inside an array literal's punctuation
    const boxed = /^\{"([^"]*)"\}$/.exec(p);
    if (boxed && ISO.test(boxed[1]) && boxed[1].length >= 16) return this.remember(boxed[1]);
    return p;
  }
  async query(ses, sql, params) {
    const low = sql.trim().toLowerCase();
    const rec = { ses, sql, params, n: this.log.length };
    this.log.push(rec);
    const injected = await this.fail(ses, sql, params);
    if (injected) {
      rec.failed = true;
      if ((injected.destroy || /^(commit|end)\b/.test(low)) && this.holder === ses) this.release(ses, "rollback");
      return injected;
    }
    if (/^(discard|deallocate|set|show)\b/.test(low)) return { command: low.split(/\s/)[0].toUpperCase() };
    if (/^(begin|start transaction)/.test(low)) {
      while (this.blocked(ses)) await new Promise((r) => this.waiting.push(r));
      this.holder = ses;
      this.db.exec("begin");
      ses.inTx = true;
      if (!ses.watching) {
        ses.watching = true;
        ses.socket.on("close", () => { if (this.holder === ses) this.release(ses, "rollback"); });
      }
      return { command: "BEGIN" };
    }
    if (/^(commit|end)\b/.test(low)) {
      const bad = ses.tx === "E";
      if (this.holder === ses) this.release(ses, bad ? "rollback" : "commit");
      return { command: bad ? "ROLLBACK" : "COMMIT" };
    }
    if (/^rollback(?! to)/.test(low)) {
      if (this.holder === ses) this.release(ses, "rollback");
      return { command: "ROLLBACK" };
    }
    if (/^(savepoint|release|rollback to)/.test(low)) {
      this.db.exec(sql);
      return { command: low.split(/\s/)[0].toUpperCase() };
    }
    const other = this.reader && /^(select|with)\b/.test(low) && !/\b(insert\s+into|update\s+\w+\s+set|delete\s+from|for\s+update|nextval)\b/.test(low) && this.blocked(ses);
    if (!other) while (this.blocked(ses)) await new Promise((r) => this.waiting.push(r));
    if (ses.closed || ses.socket.destroyed) return {};
    const db = other ? this.reader : this.db;
    let t;
    let st;
    try {
      t = this.translate(sql);
      st = db.prepare(t.sql);
      st.setReadBigInts?.(false);
      st.setAllowUnknownNamedParameters?.(true);
    } catch (e) {
      this.unsupported.push({ sql, error: e.message });
      return { error: { message: e.message, code: "42601" } };
    }
    try {
      const named = {};
      const args = Array.from({ length: t.params }, (_, i) => this.bind(params[i]));
      void named;
      const cols = st.columns();
      const before = this.db.prepare("select total_changes() c").get().c;
      const rows = cols.length ? st.all(...args) : (st.run(...args), []);
      const changed = this.db.prepare("select total_changes() c").get().c - before;
      rec.rows = rows.length;
      rec.changed = changed;
      if (t.count) return { rows: [{ [t.count]: rows.length }], fields: [{ name: t.count, type: "int8" }], command: "SELECT 1" };
      const verb = /^\s*(?:with\b[\s\S]*?\)\s*)?(insert|update|delete|select)\b/i.exec(t.sql)?.[1]?.toUpperCase() ?? "SELECT";
      const kind = /\b(insert\s+into|update|delete\s+from)\b/i.test(t.sql) && changed ? (/\binsert\s+into\b/i.test(t.sql) ? "INSERT 0" : /\bdelete\s+from\b/i.test(t.sql) ? "DELETE" : "UPDATE") : verb === "INSERT" ? "INSERT 0" : verb;
      const fields = cols.map((c) => ({ name: c.name, type: this.typeOf(c, rows) }));
      return { rows: rows.map((r) => Object.fromEntries(fields.map((f) => [f.name, this.out(r[f.name], f.type)]))), fields, command: `${kind} ${cols.length ? rows.length : changed}` };
    } catch (e) {
      const m = e.message;
      const code = /UNIQUE/.test(m) ? "23505" : /NOT NULL/.test(m) ? "23502" : /FOREIGN KEY/.test(m) ? "23503" : /CHECK/.test(m) ? "23514" : "XX000";
      if (code === "XX000") this.unsupported.push({ sql, params, error: m });
      return { error: { message: m, code } };
    }
  }
  typeOf(c, rows) {
    const decl = (c.column && c.type ? c.type : this.columns.get(c.name))?.toUpperCase();
    const vals = rows.map((r) => r[c.name]).filter((v) => v !== null);
    if (vals.some((v) => typeof v === "string" && v.startsWith(JTAG))) return "json";
    if (vals.some((v) => typeof v === "string" && v.startsWith(ATAG))) return "text[]";
    if (decl) {
      if (decl.startsWith("TIMESTAMP")) return vals.every((v) => typeof v === "number") ? "timestamptz" : "text";
      if (decl.startsWith("BOOL")) return "bool";
      if (decl === "INT8" || decl === "BIGINT") return "int8";
      if (decl.startsWith("INT") || decl === "SMALLINT") return "int4";
      if (decl.startsWith("FLOAT") || decl.startsWith("DOUBLE")) return "float8";
      if (decl.startsWith("NUMERIC")) return "numeric";
      if (decl.startsWith("JSON")) return "json";
      if (decl === "DATE") return "text";
      if (decl === "TEXT[]") return "text[]";
      if (decl === "WKB") return "wkb";
      return "text";
    }
    if (!vals.length) return "text";
    if (vals.every((v) => Number.isInteger(v) && v > 3e11 && v < 3e13)) return "timestamptz";
    if (vals.every((v) => Number.isInteger(v))) return "int4";
    if (vals.every((v) => typeof v === "number")) return "float8";
    return "text";
  }
  out(v, type) {
    if (v === null || v === undefined) return null;
    if (type === "timestamptz") return new Date(v).toISOString().replace("T", " ").replace("Z", "+00");
    if (type === "bool") return Boolean(v);
    if (type === "json") return String(v).replace(JTAG, "");
    if (type === "wkb") return wkb(parseGeom(v)).toString("hex").toUpperCase();
    if (type === "text[]") {
      const a = String(v).startsWith(ATAG) ? JSON.parse(String(v).slice(1)) : typeof v === "string" && v.startsWith("[") ? JSON.parse(v) : undefined;
      return a ? "{" + a.map((x) => (x === null ? "NULL" : '"' + String(x).replaceAll("\\", "\\\\").replaceAll('"', '\\"') + '"')).join(",") + "}" : v;
    }
    if (type === "text" && (typeof v === "number" || /^\d{12,13}$/.test(v)) && this.iso.has(Number(v))) return this.iso.get(Number(v));
    return v;
  }
  // ---- one transaction at a time ----
  /** callers must not await between a negative answer and using the database */
  blocked(ses) {
    if (this.holder?.closed) this.release(this.holder, "rollback");
    return this.holder !== undefined && this.holder !== ses;
  }
  release(ses, how) {
    if (this.holder !== ses) return;
    this.holder = undefined;
    try {
      this.db.exec(how);
    } catch {}
    ses.inTx = false;
    const w = this.waiting;
    this.waiting = [];
    for (const r of w) r();
  }
}
function pgArray(s) {
  if (s.startsWith("[")) return s;
  const out = [];
  const re = /"((?:[^"\\]|\\.)*)"|([^,{}]+)/g;
  for (const m of s.slice(1, -1).matchAll(re)) out.push(m[1] !== undefined ? m[1].replace(/\\(.)/g, "$1") : m[2]);
  return JSON.stringify(out);
}

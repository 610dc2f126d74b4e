// A stand-in for the query builder: what the code uses of it, compiled to PostgreSQL.
const q = (name) => name.split(".").map((x) => `"${x}"`).join(".");
const raw = (text) => ({ __raw: text });
export const sql = (parts, ...values) => raw(parts.reduce((a, p, i) => a + p + (i < values.length ? String(values[i]) : ""), ""));
export class DummyDriver {}
export class PostgresAdapter {}
export class PostgresIntrospector {}
export class PostgresQueryCompiler {}
class Query {
  constructor(kind, table, parts = {}) {
    Object.assign(this, { kind, table, parts });
  }
  with(k, v) {
    return new Query(this.kind, this.table, { ...this.parts, [k]: [...(this.parts[k] ?? []), v] });
  }
  select(columns) {
    const c = typeof columns === "function" ? columns({ fn: (name, args) => ({ as: (alias) => raw(`${name}(${args.map(q).join(", ")}) as ${q(alias)}`) }) }) : columns;
    return [c].flat().reduce((t, x) => t.with("columns", x), this);
  }
  leftJoin(table, a, b) {
    return this.with("joins", `left join ${q(table)} on ${q(a)} = ${q(b)}`);
  }
  where(column, op, value) {
    return this.with("where", [column, op, value]);
  }
  orderBy(column, direction) {
    return this.with("order", q(column) + (direction ? ` ${direction}` : ""));
  }
  limit(n) {
    return this.with("limit", n);
  }
  values(rows) {
    return [rows].flat().reduce((t, r) => t.with("rows", r), this);
  }
  set(a, b) {
    return Object.entries(typeof a === "string" ? { [a]: b } : a).filter(([, v]) => typeof a === "string" || v !== undefined).reduce((t, e) => t.with("set", e), this);
  }
  compile() {
    const parameters = [];
    const p = (v) => (v?.__raw !== undefined ? v.__raw : (parameters.push(v), `$${parameters.length}`));
    const { columns = [], joins = [], order = [], rows = [], set = [], limit } = this.parts;
    const where = () => (this.parts.where ? " where " + this.parts.where.map(([c, o, v]) => `${q(c)} ${o} ${p(v)}`).join(" and ") : "");
    let text;
    if (this.kind === "select") {
      text = `select ${columns.map((c) => c.__raw ?? q(c)).join(", ")} from ${q(this.table)}${joins.map((j) => " " + j).join("")}${where()}`;
      if (order.length) text += ` order by ${order.join(", ")}`;
      if (limit) text += ` limit ${p(limit.at(-1))}`;
    } else if (this.kind === "insert") {
      const names = [...new Set(rows.flatMap((r) => Object.keys(r).filter((k) => r[k] !== undefined)))];
      text = `insert into ${q(this.table)} (${names.map(q).join(", ")}) values ${rows.map((r) => `(${names.map((n) => (r[n] === undefined ? "default" : p(r[n]))).join(", ")})`).join(", ")}`;
    } else if (this.kind === "update") text = `update ${q(this.table)} set ${set.map(([k, v]) => `${q(k)} = ${p(v)}`).join(", ")}${where()}`;
    else text = `delete from ${q(this.table)}${where()}`;
    return { sql: text, parameters };
  }
}
export class Kysely {
  selectFrom(t) {
    return new Query("select", t);
  }
  insertInto(t) {
    return new Query("insert", t);
  }
  updateTable(t) {
    return new Query("update", t);
  }
  deleteFrom(t) {
    return new Query("delete", t);
  }
}

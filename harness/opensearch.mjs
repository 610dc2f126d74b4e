// An OpenSearch stand-in: documents in indices, searched with the part of the query language
// a log is counted with. A document stands for `n` alike ones.
const field = (d, f) => d[f.replace(/\.keyword$/, "")];
const present = (v) => v !== undefined && v !== null && v !== "";
const tokens = (s) => String(s).toLowerCase().split(/[^\p{L}\p{N}_]+/u).filter(Boolean);
const wild = (p) => new RegExp("^" + p.replace(/[.+^${}()|[\]\\]/g, "\\$&").replaceAll("*", ".*").replaceAll("?", ".") + "$", "s");
class Unsupported extends Error {}

/** query_string: AND, OR, NOT, parentheses, field:value, field:"a phrase" */
export function parse(q) {
  const t = q.match(/\(|\)|[\w.@]+:"(?:[^"\\]|\\.)*"|[\w.@]+:[^\s()"]+|\bAND\b|\bOR\b|\bNOT\b|\S+/g) ?? [];
  let i = 0;
  const or = () => {
    const l = [and()];
    while (t[i] === "OR") { i++; l.push(and()); }
    return (d) => l.some((f) => f(d));
  };
  const and = () => {
    const l = [unit()];
    while (t[i] === "AND") { i++; l.push(unit()); }
    return (d) => l.every((f) => f(d));
  };
  const unit = () => {
    const x = t[i++];
    if (x === "NOT") { const f = unit(); return (d) => !f(d); }
    if (x === "(") {
      const f = or();
      if (t[i++] !== ")") throw new Unsupported("query_string " + q);
      return f;
    }
    const m = /^([\w.@]+):(?:"((?:[^"\\]|\\.)*)"|(.+))$/s.exec(x ?? "");
    if (!m) throw new Unsupported("query_string " + q);
    const [, f, phrase, v] = m;
    if (phrase !== undefined) {
      if (f.endsWith(".keyword")) return (d) => String(field(d, f)) === phrase;
      const p = tokens(phrase);
      return (d) => {
        if (!present(field(d, f)) || !p.length) return false;
        const w = tokens(field(d, f));
        return w.some((_, k) => p.every((y, j) => w[k + j] === y));
      };
    }
    if (v === "*") return (d) => present(field(d, f));
    return (d) => present(field(d, f)) && wild(v).test(String(field(d, f)));
  };
  const f = or();
  if (i < t.length) throw new Unsupported("query_string " + q);
  return f;
}
/** a field that has the words of a phrase, in order */
function phrased(f, phrase) {
  if (f.endsWith(".keyword")) return (d) => String(field(d, f)) === String(phrase);
  const p = tokens(phrase);
  return (d) => {
    if (!present(field(d, f)) || !p.length) return false;
    const w = tokens(field(d, f));
    return w.some((_, k) => p.every((y, j) => w[k + j] === y));
  };
}
const ms = (v) => {
  if (typeof v === "number") return v;
  const rel = /^now(?:([+-]\d+)m)?$/.exec(v);
  if (rel) return Date.now() + Number(rel[1] ?? 0) * 60e3;
  const x = Date.parse(v);
  if (Number.isNaN(x)) throw new Unsupported("time " + v);
  return x;
};
export function matcher(q) {
  const [kind, a] = Object.entries(q)[0] ?? [];
  const list = (x) => (x === undefined ? [] : [x].flat().map(matcher));
  switch (kind) {
    case "match_all": return () => true;
    case "bool": {
      const [must, not, filter, should] = [list(a.must), list(a.must_not), list(a.filter), list(a.should)];
      return (d) => must.every((f) => f(d)) && filter.every((f) => f(d)) && !not.some((f) => f(d)) && (!should.length || must.length + filter.length > 0 && !a.minimum_should_match || should.some((f) => f(d)));
    }
    case "query_string": return parse(a.query);
    case "exists": return (d) => present(field(d, a.field));
    case "term": { const [f, v] = Object.entries(a)[0]; const x = v?.value ?? v; return (d) => String(field(d, f)) === String(x); }
    case "terms": { const [f, v] = Object.entries(a)[0]; return (d) => v.map(String).includes(String(field(d, f))); }
    case "wildcard": { const [f, v] = Object.entries(a)[0]; const x = wild(v?.value ?? v?.wildcard ?? v); return (d) => present(field(d, f)) && x.test(String(field(d, f))); }
    case "match_phrase": { const [f, v] = Object.entries(a)[0]; return phrased(f, v?.query ?? v); }
    case "multi_match": {
      if (a.type !== "phrase") throw new Unsupported("multi_match " + a.type);
      const l = a.fields.map((f) => phrased(f, a.query));
      return (d) => l.some((f) => f(d));
    }
    case "prefix": { const [f, v] = Object.entries(a)[0]; const x = v?.value ?? v; return (d) => present(field(d, f)) && String(field(d, f)).startsWith(x); }
    case "regexp": { const [f, v] = Object.entries(a)[0]; const x = new RegExp(`^(?:${v?.value ?? v})$`, "s"); return (d) => present(field(d, f)) && x.test(String(field(d, f))); }
    case "range": {
      const [f, r] = Object.entries(a)[0];
      const given = (v) => v !== undefined && v !== null;
      return (d) => {
        if (!present(field(d, f))) return false;
        const x = ms(field(d, f));
        if (given(r.from) && (r.include_lower === false ? x <= ms(r.from) : x < ms(r.from))) return false;
        if (given(r.to) && (r.include_upper === false ? x >= ms(r.to) : x > ms(r.to))) return false;
        return (r.gte === undefined || x >= ms(r.gte)) && (r.gt === undefined || x > ms(r.gt)) && (r.lt === undefined || x < ms(r.lt)) && (r.lte === undefined || x <= ms(r.lte));
      };
    }
    default: throw new Unsupported("query " + kind);
  }
}
/** does a bucket pass a bucket_selector */
function selected(s, b) {
  const params = Object.fromEntries(Object.entries(s.buckets_path).map(([k, p]) => {
    if (p === "_count") return [k, b.doc_count];
    const m = /^([^.]+)\._bucket_count$/.exec(p);
    if (m) return [k, b[m[1]].buckets.length];
    if (b[p]?.value === undefined) throw new Unsupported("buckets_path " + p);
    return [k, b[p].value];
  }));
  return new Function("params", "return " + s.script)(params);
}
/** a scripted metric on a few shards; longs are divided as longs */
function scripted(p, docs) {
  const js = (s) => s.replace(/\['total': 0L\]/g, "{ total: 0 }").replace(/\bdef /g, "let ").replace(/for \((\w+) in states\)/, "for (const $1 of states)").replace(/return \(?([\w.]+) \/ (\([\d*]+\)|\d+)\)?;/, "return Math.trunc($1 / $2);");
  const shards = [0, 1, 2].map((i) => docs.filter((_, k) => k % 3 === i));
  const states = shards.map((l) => {
    const state = {};
    new Function("state", js(p.init_script))(state);
    const map = new Function("state", "doc", js(p.map_script));
    for (const d of l) for (let i = 0; i < d.n; i++) map(state, new Proxy({}, { get: (_, f) => { if (!present(field(d, f))) throw new Unsupported("script of " + f); return { value: field(d, f) }; } }));
    return new Function("state", "return " + js(p.combine_script))(state);
  });
  return new Function("states", js(p.reduce_script))(states);
}
const count = (l) => l.reduce((s, d) => s + d.n, 0);
function aggregate(aggs, docs) {
  return Object.fromEntries(Object.entries(aggs).map(([name, a]) => {
    const [kind, p] = Object.entries(a).find(([k]) => k !== "aggs" && k !== "aggregations");
    const sub = a.aggs ?? a.aggregations;
    if (kind === "scripted_metric") return [name, { value: scripted(p, docs) }];
    if (kind === "bucket_selector") return [name, undefined];
    const have = docs.filter((d) => present(field(d, p.field)));
    if (kind === "sum") return [name, { value: have.reduce((s, d) => s + d.n * field(d, p.field), 0) }];
    if (kind === "value_count") return [name, { value: count(have) }];
    if (kind === "cardinality") return [name, { value: new Set(have.map((d) => String(field(d, p.field)))).size }];
    if (kind === "max" || kind === "min") return [name, { value: have.length ? Math[kind](...have.map((d) => field(d, p.field))) : null }];
    if (kind === "avg") return [name, { value: have.length ? have.reduce((s, d) => s + d.n * field(d, p.field), 0) / count(have) : null }];
    if (kind !== "terms") throw new Unsupported("aggregation " + kind);
    let late;
    const by = new Map();
    for (const d of docs) {
      const v = present(field(d, p.field)) ? String(field(d, p.field)) : p.missing;
      if (v !== undefined && v !== null) by.set(v, [...(by.get(v) ?? []), d]);
    }
    let buckets = [...by].map(([key, l]) => ({ key, doc_count: count(l), ...(sub ? aggregate(sub, l) : {}) }));
    for (const s of Object.values(sub ?? {})) {
      if (!s.bucket_selector) continue;
      if (!late) late = [];
      late.push(s.bucket_selector);
    }
    const [o, dir] = Object.entries(p.order ?? { _count: "desc" })[0];
    const rank = (b) => (o === "_count" ? b.doc_count : o === "_key" ? b.key : (b[o.split(".")[0]]?.value ?? 0));
    const cmp = (x, y) => (x < y ? -1 : x > y ? 1 : 0);
    buckets.sort((x, y) => (dir === "desc" ? -1 : 1) * cmp(rank(x), rank(y)) || cmp(x.key, y.key));
    const all = buckets.length;
    buckets = buckets.slice(0, p.size ?? 10);
    for (const s of late ?? []) buckets = buckets.filter((b) => selected(s, b));
    return [name, { doc_count_error_upper_bound: 0, sum_other_doc_count: all - buckets.length, buckets }];
  }));
}
/** what a search shows of its hits */
function top(hit, body) {
  const [f, o] = Object.entries([body.sort ?? []].flat()[0] ?? {})[0] ?? [];
  const cmp = (x, y) => (x < y ? -1 : x > y ? 1 : 0);
  const l = f ? [...hit].sort((a, b) => (o.order === "desc" ? -1 : 1) * cmp(field(a, f), field(b, f))) : hit;
  return l.slice(0, body.size ?? 0).map((d) => ({ _source: d }));
}
/** answer to METHOD of an index (a list, with wildcards) */
export function search(indices, index, method, body) {
  const names = index.split(",").flatMap((p) => {
    const l = [...indices.keys()].filter((k) => wild(p).test(k));
    return l.length || p.includes("*") ? l : [undefined];
  });
  if (names.includes(undefined)) return { status: 404, body: { error: { type: "index_not_found_exception", index } } };
  const docs = [...new Set(names)].flatMap((k) => indices.get(k));
  try {
    const hit = docs.filter(body.query ? matcher(body.query) : () => true);
    if (method === "_count") return { status: 200, body: { count: count(hit), _shards: { total: 1, successful: 1, failed: 0 } } };
    if (method === "_search") return { status: 200, body: { took: 1, timed_out: false, hits: { total: { value: body.track_total_hits === true ? count(hit) : Math.min(10000, count(hit)), relation: "eq" }, hits: top(hit, body) }, ...(body.aggs ?? body.aggregations ? { aggregations: aggregate(body.aggs ?? body.aggregations, hit) } : {}) } };
  } catch (e) {
    if (e instanceof Unsupported) return { status: 400, unsupported: e.message, body: { error: { type: "parsing_exception", reason: e.message } } };
    throw e;
  }
  return { status: 405, body: { error: "method" } };
}

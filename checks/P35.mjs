// Counts of passers-by: sites and their counts are followed from a source, and published as told,
// each count once, by site, mode and day, as JSON and as CSV.
import { run, service } from "./P33.mjs";

const TS = (c, more = "") => `${c} TIMESTAMPTZ ${more} check(${c} is null or typeof(${c}) = 'integer')`;
const MODES = ["pedestrian", "bike", "horse", "minibus", "bus", "motorbike", "car", "truck", "undefined", "kayak", "scooter", "cargobike"];
const GRAINS = ["PT15M", "PT1H", "P1D", "P1W", "P1M", "P1Y"];
const IN = (c, l) => `${c} TEXT check(${c} is null or ${c} in (${l.map((x) => `'${x}'`).join(", ")}))`;
const DDL = `
create table cs2_site(id INTEGER primary key check(typeof(id) = 'integer'), name TEXT not null, domain TEXT not null, description TEXT, custom_id TEXT, latitude NUMERIC not null, longitude NUMERIC not null, ${IN("granularity", GRAINS)}, directional BOOL not null check(directional in (0, 1)), travel_modes TEXT[] not null, ${TS("removed_timestamp")}, ${TS("last_data_timestamp")}, ${TS("created")}, ${TS("modified")});
create table cs2_data(site_id INTEGER not null references cs2_site(id), ${IN("travel_mode", MODES)}, ${IN("direction", ["in", "out", "undefined"])}, ${TS("data_timestamp", "not null")}, ${IN("granularity", GRAINS)}, counts INTEGER not null check(typeof(counts) = 'integer'), ${TS("created")}, ${TS("modified")});
create trigger s_i after insert on cs2_site when new.modified is null begin update cs2_site set modified = now(), created = now() where id = new.id; end;
create trigger s_u after update of name, description, custom_id, removed_timestamp, last_data_timestamp on cs2_site begin update cs2_site set modified = now() where id = new.id; end;
create trigger d_i after insert on cs2_data when new.modified is null begin update cs2_data set modified = now(), created = now() where rowid = new.rowid; end;
create table data_updated(id TEXT, data_type TEXT, subtype TEXT default '-', ${TS("updated")}, primary key(data_type, subtype));
create table updated_timestamp(updated_name TEXT primary key, ${TS("updated_time", "not null")}, updated_by TEXT);
`;
const MIN = 6e4;
const HOUR = 36e5;
const DAY = 864e5;
const TEXTS = ["Baana", "Länsi ö", "O'Brien", "\"q\" \\", "$1 $& ;--", "a, b", "{1,2}", "line\nbreak"];
const iso = (t) => new Date(t).toISOString().replace(/\.\d+Z$/, "Z");

export default {
  id: "P35",
  rule: "A case is one history of a source of sites and counts, updates and queries; non-trivial when counts were published.",
  assumptions: ["SQL is executed by SQLite after translation; the query builder and the CSV writer are stand-ins.", "Modification times are set by triggers like the database's.", "Counts are on whole minutes; the change to and from summer time is not met."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ "cs:updates": 600, "cs:points": 4000, "cs:asked": 700, "cs:first": 40, "cs:empty": 100, "cs:moved-on": 15, "cs:up-to-date": 60, "cs:removed:skipped": 50, "cs:fetch-failed": 60, "cs:others-done": 25, "cs:fault": 40, "cs:again-after-failure": 30, "sites:updates": 350, "sites:new": 40, "sites:changed": 350, "sites:removed": 60, "sites:still-removed": 100, "sites:returned": 25, "sites:fetch-failed": 40, "sites:fault": 15, "counting:queries": 1000, "q:sites": 180, "q:site": 100, "q:unknown": 20, "q:values": 250, "q:values:some": 90, "q:csv": 150, "q:csv:some": 60, "q:bad": 80, "counting:queries:fault": 15 })) ctx.require(k, n);
    await run(ctx, "road/counting-site", "counting-site-cdk-stack", "CountingSiteCdkStack", { secretId: "app-secret", stackFeatures: { enableCanaries: false } }, counts, ctx.n(40, 500), DDL);
  },
};

async function counts(ctx, w, conf, routes, index) {
  const [month, day] = ctx.rng.pick([[0, 12], [4, 1], [5, 20], [7, 28], [10, 20], [11, 30]]);
  w.now = Date.UTC(2024, month, day, ctx.rng.int(0, 23), ctx.rng.int(0, 59), ctx.rng.int(0, 59), ctx.rng.int(0, 999));
  const s = service(ctx, w, conf, routes, "update-data");
  const meta = service(ctx, w, conf, routes, "update-metadata");
  // the second service resets the world: faults are those of the first
  const { rng, fault } = s;
  w.secret({ "cs.url": `${w.url}/eco`, "cs.apiKey": "KEY-C" });
  w.sql.fail = (ses, sql) => {
    if (/^\s*(rollback|discard|show|set|begin|commit)/i.test(sql) || !fault.rate || !rng.bool(fault.rate)) return undefined;
    fault.hits++;
    return rng.bool(0.15) ? { destroy: true } : { error: { message: "deadlock detected", code: "40P01" } };
  };
  // ---- the source ----
  const source = new Map();
  const lag = rng.pick([0, 0, 40, 200]) * MIN;
  const grid = rng.pick([3, 4, 6, 8]) * HOUR;
  let n = 0;
  const known = rng.array(rng.int(1, 4), (i) => 100 + i * 37);
  const hash = (...x) => [...x.join("|")].reduce((h, c) => Math.imul(h ^ c.charCodeAt(0), 16777619) >>> 0, 2166136261);
  const content = (id) => ({ id, name: rng.pick(TEXTS) + ++n, description: rng.pick(TEXTS), customId: rng.pick(["c1", "", "O'C"]), location: { lat: rng.int(580000, 660000) / 1e4, lon: rng.int(200000, 300000) / 1e4 }, granularity: rng.pick(GRAINS), travelModes: rng.shuffle(MODES).slice(0, rng.int(1, 3)), directional: rng.bool(), domain: { id: 3 }, firstData: "x" });
  // what a site counted does not depend on when it is asked
  const gaps = new Map(known.map((id) => [id, rng.array(rng.int(0, 3), () => { const a = w.now + rng.int(-11 * 24, 16 * 24) * HOUR; return [a, a + rng.pick([6, 30, 50, 220]) * HOUR]; })]));
  const series = new Map(known.map((id) => [id, [...new Set(rng.array(rng.int(1, 3), () => `${rng.pick(MODES)}|${rng.pick(["in", "out", "undefined"])}|${rng.pick(GRAINS)}`))]]));
  const points = (id, from, to) => {
    const out = [];
    for (let t = Math.ceil(from / grid) * grid; t <= to; t += grid) {
      if (gaps.get(id).some(([a, b]) => t >= a && t < b)) continue;
      for (const x of series.get(id)) {
        const h = hash(id, t, x);
        if (h % 5) out.push({ id, t: t + (id % 3) * 15 * MIN, x, counts: h % 1000 });
      }
    }
    return out.filter((p) => p.t >= from && p.t <= to);
  };
  for (const id of known.slice(0, rng.int(1, known.length))) source.set(id, content(id));
  // ---- a site of someone else's, with counts of its own ----
  const sites = new Map(); // id -> what is kept
  const data = []; // {id, t, x, counts}
  const other = { id: 999, name: "Other", domain: "Other", description: "x", custom_id: null, latitude: 60, longitude: 25, granularity: null, directional: false, travel_modes: ["car"], removed: null, last: w.now - 20 * DAY };
  w.sql.insert("cs2_site", [{ id: 999, name: "Other", domain: "Other", description: "x", latitude: 60, longitude: 25, directional: 0, travel_modes: '["car"]', last_data_timestamp: other.last }]);
  sites.set(999, other);
  for (let i = 0; i < 6; i++) {
    const p = { id: 999, t: Math.floor((w.now - rng.int(0, 60) * HOUR) / HOUR) * HOUR - i * MIN, x: "car|in|PT1H", counts: i };
    data.push(p);
    w.sql.insert("cs2_data", [{ site_id: 999, travel_mode: "car", direction: "in", data_timestamp: p.t, granularity: "PT1H", counts: i }]);
  }
  // some have been followed for long
  const settled = rng.bool(0.5);
  if (settled)
    for (const [id, src] of source) {
      if (rng.bool(0.2)) continue;
      const last = Math.floor((w.now - rng.int(60, 40 * 60) * MIN) / MIN) * MIN;
      sites.set(id, { id, name: src.name, domain: "Fintraffic", description: src.description, custom_id: src.customId, latitude: src.location.lat, longitude: src.location.lon, granularity: src.granularity, directional: src.directional, travel_modes: src.travelModes, removed: null, last });
      w.sql.insert("cs2_site", [{ id, name: src.name, domain: "Fintraffic", description: src.description, custom_id: src.customId, latitude: src.location.lat, longitude: src.location.lon, granularity: src.granularity, directional: src.directional ? 1 : 0, travel_modes: JSON.stringify(src.travelModes), last_data_timestamp: last }]);
    }
  const rowOf = (id) => {
    const r = w.sql.all("select * from cs2_site where id = ?", id)[0];
    if (!r) return undefined;
    const { created, modified, ...x } = r;
    return { ...x, travel_modes: parseArray(x.travel_modes) };
  };
  const wantRow = (k) => ({ id: k.id, name: k.name, domain: k.domain, description: k.description, custom_id: k.custom_id, latitude: k.latitude, longitude: k.longitude, granularity: k.granularity, directional: k.directional ? 1 : 0, travel_modes: k.travel_modes, removed_timestamp: k.removed, last_data_timestamp: k.last });
  const mark = (type) => w.sql.all("select updated from data_updated where data_type = ?", type)[0]?.updated ?? null;
  const failure = () => rng.pick([{ status: 400, body: "{}" }, { status: 401, body: "{}" }, { status: 404, body: "[]" }, { status: 200, body: "{\"a\":" }, { status: 200, body: "<html>" }, { status: 503, headers: { "retry-after": "0" }, body: "[]" }, { status: 204, body: "" }]);

  const updateSites = async () => {
    for (let i = rng.int(0, 3); i > 0; i--) {
      const id = rng.pick(known);
      if (source.has(id) && rng.bool(0.4)) source.delete(id);
      else source.set(id, source.has(id) && rng.bool(0.5) ? { ...source.get(id), name: `new ${++n}` } : content(id));
    }
    const fail = rng.bool(0.12);
    const hurt = !fail && rng.bool(0.12);
    const before = mark("COUNTING_SITES_METADATA_CHECK");
    let asked = 0;
    fault.rate = hurt ? 0.3 : 0;
    const { hit } = await meta.update(async (r) => {
      if (r.method !== "GET" || r.path !== "/eco/api/v2/sites" || r.headers["x-api-key"] !== "KEY-C") return { status: 403, body: "{}" };
      asked++;
      return fail ? failure() : { body: [...source.values()] };
    }).then((x) => ({ hit: fault.hits > (updateSites.hits ?? 0), x }));
    updateSites.hits = fault.hits;
    fault.rate = 0;
    if (hit) await new Promise((x) => setTimeout(x, 10));
    const about = { index, now: w.now, fail, hit, source: [...source.keys()] };
    ctx.observe("sites:updates");
    if (fail) ctx.observe("sites:fetch-failed");
    if (hit) ctx.observe("sites:fault");
    ctx.expect(hit || asked, "sites:unasked", "the sites are not asked with the key", about);
    for (const id of new Set([...sites.keys(), ...source.keys()])) {
      const old = sites.get(id);
      const src = source.get(id);
      const row = rowOf(id);
      let want = old;
      if (!fail && id !== 999) {
        if (src) {
          want = { id, name: src.name, domain: "Fintraffic", description: src.description, custom_id: src.customId, latitude: src.location.lat, longitude: src.location.lon, granularity: src.granularity, directional: src.directional, travel_modes: src.travelModes, removed: null, last: old?.last ?? null };
          ctx.observe(!old ? "sites:new" : "sites:changed");
          if (old?.removed) ctx.observe("sites:returned");
        } else if (old && old.removed === null) {
          want = { ...old, removed: w.now };
          ctx.observe("sites:removed");
        } else if (old) ctx.observe("sites:still-removed");
      }
      const at = { ...about, id, src, row, old };
      if (hit) {
        const ok = JSON.stringify(sorted(row)) === JSON.stringify(sorted(want && wantRow(want))) || JSON.stringify(sorted(row)) === JSON.stringify(sorted(old && wantRow(old)));
        ctx.expect(ok, "sites:half", "a site is neither as it was nor as the source told it", at);
        if (row && JSON.stringify(sorted(row)) === JSON.stringify(sorted(want && wantRow(want)))) sites.set(id, want);
      } else {
        ctx.equal(row ?? null, want ? wantRow(want) : null, fail ? "sites:unfetched" : id === 999 ? "sites:other" : !src ? "sites:removed" : "sites:content", fail ? "sites change though they could not be fetched" : id === 999 ? "a site of another domain changes" : !src ? "a site that the source removed is not kept as removed when it was" : "a site is not kept as its source tells it", at);
        if (want) sites.set(id, want);
      }
    }
    const marked = mark("COUNTING_SITES_METADATA_CHECK");
    if (!hit) ctx.expect(marked === (fail ? before : w.now), "sites:marked", "the time of the latest check of the sites is wrong", { ...about, marked, before });
  };

  const failedBefore = new Set();
  const updateData = async () => {
    const failing = rng.pick([0, 0, 0, 0.4, 1]);
    const hurt = rng.bool(0.15);
    const fails = new Set(known.filter(() => rng.bool(failing)));
    const asked = new Map();
    const before = mark("COUNTING_SITES_DATA");
    fault.rate = hurt ? rng.pick([0.05, 0.2]) : 0;
    const hits = fault.hits;
    await s.update(async (r) => {
      const q = r.query ?? new URLSearchParams(r.url?.split("?")[1] ?? "");
      const g = (k) => (q.get ? q.get(k) : q[k]);
      if (r.method !== "GET" || r.path !== "/eco/api/v2/history/traffic/raw" || r.headers["x-api-key"] !== "KEY-C") return { status: 403, body: "{}" };
      const id = Number(g("siteId"));
      const from = instant(`${g("startDate")}T${g("startTime")}`);
      const to = instant(`${g("endDate")}T${g("endTime")}`);
      (asked.get(id) ?? asked.set(id, []).get(id)).push({ from, to });
      if (fails.has(id)) return failure();
      if (!series.has(id)) return { status: 404, body: "[]" };
      const found = points(id, from, Math.min(to, w.now - lag));
      const groups = new Map();
      for (const p of found) {
        const [mode, direction, granularity] = p.x.split("|");
        const k = `${mode}|${direction}`;
        (groups.get(k) ?? groups.set(k, []).get(k)).push({ timestamp: rng.bool() ? new Date(p.t).toISOString() : new Date(p.t + 2 * HOUR).toISOString().replace(/\.000Z$/, "+02:00"), granularity, counts: p.counts });
      }
      return { body: rng.shuffle([...groups]).map(([k, d]) => ({ travelMode: k.split("|")[0], direction: k.split("|")[1], data: rng.shuffle(d) })).concat(rng.bool(0.2) ? [{ travelMode: "bus", direction: "in", data: [] }] : []) };
    });
    const hit = fault.hits > hits;
    updateSites.hits = fault.hits;
    fault.rate = 0;
    if (hit) await new Promise((x) => setTimeout(x, 10));
    const about = { index, now: w.now, hit, fails: [...fails], asked: Object.fromEntries(asked) };
    ctx.observe("cs:updates");
    if (hit) ctx.observe("cs:fault");
    let anyFailed = false;
    let done = 0;
    const kept = new Map();
    for (const r of w.sql.all("select * from cs2_data")) (kept.get(r.site_id) ?? kept.set(r.site_id, []).get(r.site_id)).push(`${r.data_timestamp}|${r.travel_mode}|${r.direction}|${r.granularity}|${r.counts}`);
    for (const k of sites.values()) {
      const calls = asked.get(k.id) ?? [];
      const at = { ...about, site: k, calls };
      const age = k.last === null ? Infinity : w.now - k.last;
      const need = k.domain === "Fintraffic" && k.removed === null && age > DAY;
      if (k.removed !== null) ctx.observe("cs:removed:skipped");
      else if (k.domain === "Fintraffic" && !need) ctx.observe("cs:up-to-date");
      if (!need) ctx.expect(!calls.length, "counts:needless", "counts are asked of a site that needs none", at);
      else if (!hit) ctx.expect(calls.length, "counts:unasked", "counts of a site are not asked", at);
      const from = Math.floor(((k.last ?? Math.floor((w.now - 10 * DAY) / DAY) * DAY) + MIN) / MIN) * MIN;
      const to = Math.floor(((k.last ?? Math.floor((w.now - 10 * DAY) / DAY) * DAY) + DAY) / MIN) * MIN;
      let fresh = [];
      let failed = !need;
      if (calls.length) {
        ctx.observe("cs:asked");
        if (k.last === null) ctx.observe("cs:first");
        ctx.expect(calls.every((c) => c.from === from && c.to === to), "counts:window", "counts are not asked from where they ended", { ...at, from, to });
        failed = fails.has(k.id);
        if (failed) ctx.observe("cs:fetch-failed");
        else {
          fresh = points(k.id, calls[0].from, Math.min(calls[0].to, w.now - lag));
          if (!fresh.length) ctx.observe("cs:empty");
        }
        anyFailed ||= failed;
      } else if (need) failed = true; // the database failed first
      const old = data.filter((p) => p.id === k.id);
      const key = (p) => { const [m, d, g] = p.x.split("|"); return `${p.t}|${m}|${d}|${g}|${p.counts}`; };
      let last = k.last;
      if (!failed) last = fresh.length ? Math.max(...fresh.map((p) => p.t)) : age > 7 * DAY && k.last !== null ? k.last + DAY : k.last;
      const is = (kept.get(k.id) ?? []).sort();
      const isLast = rowOf(k.id).last_data_timestamp;
      const all = [...old, ...fresh].map(key).sort();
      const unchanged = JSON.stringify([is, isLast]) === JSON.stringify([old.map(key).sort(), k.last]);
      const changed = JSON.stringify([is, isLast]) === JSON.stringify([all, last]);
      const gone = is.filter((x, i) => is.indexOf(x) !== i);
      const more = { ...at, last, isLast, twice: gone.slice(0, 3), missing: all.filter((x) => !is.includes(x)).slice(0, 3), extra: is.filter((x) => !all.includes(x)).slice(0, 3) };
      ctx.expect(!gone.length, "counts:twice", "a count is kept more than once", more);
      if (hit) ctx.expect(changed || unchanged, "counts:half", "counts of a site are kept in part, or without how far they reach", more);
      else ctx.expect(changed, failed ? "counts:failed" : "counts:kept", failed ? "counts of a site change though they could not be fetched" : "counts are not kept as their source tells them", more);
      if (changed && !failed) {
        if (fails.size && [...asked.keys()].some((x) => fails.has(x))) ctx.observe("cs:others-done");
        if (failedBefore.has(k.id) && fresh.length) ctx.observe("cs:again-after-failure");
        if (!fresh.length && last !== k.last) ctx.observe("cs:moved-on");
        failedBefore.delete(k.id);
        data.push(...fresh);
        k.last = last;
        ctx.observe("cs:points", fresh.length);
        done++;
      } else if (need) failedBefore.add(k.id);
    }
    for (const id of asked.keys()) ctx.expect(sites.has(id), "counts:unknown", "counts of a site that is not known are asked", { ...about, id });
    const marked = mark("COUNTING_SITES_DATA");
    if (!hit) ctx.expect(marked === (anyFailed ? before : w.now), "counts:marked", anyFailed ? "counts are marked as updated when they could not all be fetched" : "an update of counts is not marked", { ...about, marked, before });
    void done;
  };

  let shown = 0;
  const query = async () => {
    fault.rate = rng.bool(0.03) ? 1 : 0;
    const ask = (url) => s.ask("counting", `/api/counting-site/v2/${url}`);
    const kind = rng.int(0, 4);
    if (kind === 0) {
      const bad = rng.pick(["sites?siteId=abc", "sites/x1", "sites?foo=1", "values?date=2024-13-33", "values?date=2024-08-08T16:44:04Z", "values?travelMode=plane", "values?siteId=x", "values?fro=1", "values.csv", "values.csv?year=2024&month=8", "values.csv?year=2023&month=8&siteId=100", "values.csv?year=2024&month=13&siteId=100", "values.csv?year=2024&month=0&siteId=100", "values.csv?year=2024&month=8&siteId=100&travelMode=Car", "values.csv?year=2024&month=8&siteId=x"]);
      const r = await ask(bad);
      updateSites.hits = fault.hits;
      if (!r) return;
      ctx.observe("q:bad");
      ctx.expect(r.a.status === 400, "query:bad", "a query that means nothing is answered", { ...r.about, text: r.a.text.slice(0, 300) });
      return;
    }
    if (kind <= 2) {
      const one = rng.bool(0.4);
      const domain = !one && rng.bool(0.4) ? rng.pick(["Fintraffic", "Other", "nobody"]) : undefined;
      const id = one || rng.bool(0.15) ? rng.pick([...sites.keys(), 12345]) : undefined;
      const r = await ask(one ? `sites/${id}` : `sites?${new URLSearchParams({ ...(domain ? { domain } : {}), ...(id ? { siteId: id } : {}) })}`);
      updateSites.hits = fault.hits;
      if (!r) return;
      const want = [...sites.values()].filter((k) => (!domain || k.domain === domain) && (!id || k.id === id));
      const about = { ...r.about, id, domain };
      if (id && !want.length) {
        ctx.observe("q:unknown");
        ctx.expect(r.a.status === 404, "sites:unknown", "a site that is not known is found", about);
        return;
      }
      ctx.observe(one ? "q:site" : "q:sites");
      if (!ctx.expect(r.a.status === 200 && r.json?.type === "FeatureCollection", "sites:refused", "a sound query is refused", { ...about, text: r.a.text.slice(0, 300) })) return;
      const mod = new Map(w.sql.all("select id, modified from cs2_site").map((x) => [x.id, x.modified]));
      const latest = Math.max(0, ...want.map((k) => mod.get(k.id)));
      const feature = (k) => ({ type: "Feature", geometry: { type: "Point", coordinates: [k.longitude, k.latitude] }, properties: { id: k.id, name: k.name, domain: k.domain, description: k.description, customId: k.custom_id, granularity: k.granularity, directional: Boolean(k.directional), travelModes: k.travel_modes, lastDataTimestamp: k.last === null ? null : iso(k.last), removedTimestamp: k.removed === null ? null : iso(k.removed), dataUpdatedTime: iso(mod.get(k.id)) } });
      const by = (a, b) => a.properties.id - b.properties.id;
      ctx.equal([...r.json.features].sort(by).map((f) => ({ ...f, properties: { ...f.properties, directional: Boolean(f.properties.directional) } })), want.map(feature).sort(by), "sites:published", "sites are not published as they are kept", about);
      ctx.expect(r.json.dataUpdatedTime === iso(latest), "sites:updated", "the time of the latest change of the sites is wrong", { ...about, is: r.json.dataUpdatedTime, want: iso(latest) });
      ctx.expect(Date.parse(r.a.headers["last-modified"]) === Math.floor(latest / 1000) * 1000, "sites:last-modified", "the header does not tell the latest change", { ...about, is: r.a.headers["last-modified"], want: iso(latest) });
      shown++;
      return;
    }
    const siteId = rng.bool(0.6) ? rng.pick([...sites.keys(), 12345]) : undefined;
    const near = data.length && rng.bool(0.85) ? rng.pick(data) : undefined;
    const mode = rng.bool(0.35) ? (near && rng.bool(0.7) ? near.x.split("|")[0] : rng.pick(MODES)) : undefined;
    const sort = (a, b) => a.id - b.id || cmp(a.x.split("|")[0], b.x.split("|")[0]) || cmp(a.x.split("|")[1], b.x.split("|")[1]) || a.t - b.t;
    {
      const date = rng.bool(0.8) ? iso(near?.t ?? w.now - rng.int(0, 30) * DAY).slice(0, 10) : undefined;
      const id = siteId && near && rng.bool(0.5) ? near.id : siteId;
      const r = await ask(`values?${new URLSearchParams({ ...(date ? { date } : {}), ...(id ? { siteId: id } : {}), ...(mode ? { travelMode: mode } : {}) })}`);
      updateSites.hits = fault.hits;
      if (!r) return;
      const d = date ? Date.parse(date) : Math.floor((w.now - DAY) / DAY) * DAY;
      const want = data.filter((p) => p.t >= d && p.t < d + DAY && (!id || p.id === id) && (!mode || p.x.split("|")[0] === mode)).sort(sort);
      ctx.observe("q:values");
      if (want.length) ctx.observe("q:values:some");
      const about = { ...r.about, date, id, mode };
      if (!ctx.expect(r.a.status === 200, "values:refused", "a sound query is refused", { ...about, text: r.a.text.slice(0, 300) })) return;
      const wire = (p) => { const [travelMode, direction, granularity] = p.x.split("|"); return { siteId: p.id, travelMode, direction, dataTimestamp: p.t, granularity, count: p.counts }; };
      const tie = (l) => [...l].sort((a, b) => cmp(JSON.stringify(a), JSON.stringify(b)));
      const got = r.json.map((x) => ({ ...x, dataTimestamp: Date.parse(x.dataTimestamp) }));
      ctx.equal(tie(got.map(sorted)), tie(want.map(wire).map(sorted)), "values:content", "counts of a day are not published as they are kept", about);
      ctx.equal(got.map((x) => [x.siteId, x.travelMode, x.direction, x.dataTimestamp]), want.map(wire).map((x) => [x.siteId, x.travelMode, x.direction, x.dataTimestamp]), "values:order", "counts are not in the order of sites, modes, directions and time", about);
      const times = w.sql.all(`select max(modified) m from cs2_data where data_timestamp >= ? and data_timestamp < ?${id ? " and site_id = " + id : ""}${mode ? ` and travel_mode = '${mode}'` : ""}`, d, d + DAY)[0].m;
      ctx.expect(Date.parse(r.a.headers["last-modified"]) === Math.floor((times ?? w.now) / 1000) * 1000, "values:last-modified", "the header does not tell the latest change", { ...about, is: r.a.headers["last-modified"], times });
      if (want.length) shown++;
    }
  };
  // CSV is not JSON: it is asked without the helper's reading
  const csv = async () => {
    fault.rate = 0;
    const near = data.length && rng.bool(0.85) ? rng.pick(data) : undefined;
    const at = new Date(near?.t ?? w.now - rng.int(0, 30) * DAY);
    const id = near && rng.bool(0.85) ? near.id : rng.pick([...sites.keys(), 12345]);
    const mode = rng.bool(0.35) ? (near && rng.bool(0.7) ? near.x.split("|")[0] : rng.pick(MODES)) : undefined;
    const year = Math.max(2024, at.getUTCFullYear());
    const m = at.getUTCMonth() + 1;
    const url = `/api/counting-site/v2/values.csv?${new URLSearchParams({ year, month: rng.bool(0.3) ? String(m).padStart(2, "0") : m, siteId: id, ...(mode ? { travelMode: mode } : {}) })}`;
    const a = await s.api.call("GET", url);
    const want = data.filter((p) => p.id === id && p.t >= Date.UTC(year, m - 1, 1) && p.t < Date.UTC(year, m, 1) && (!mode || p.x.split("|")[0] === mode));
    const about = { url, status: a.status, error: String(a.error ?? ""), text: a.text.slice(0, 300) };
    ctx.observe("q:csv");
    if (want.length) ctx.observe("q:csv:some");
    ctx.expect(a.route?.key === true, "counting:key", "a public method does not ask for an API key", about);
    if (!ctx.expect(a.status === 200, "csv:refused", "a sound query is refused", about)) return;
    const rows = readCsv(a.text);
    ctx.equal(rows[0], ["SITE", "TRAVELMODE", "TIMESTAMP", "GRANULARITY", "DIRECTION", "COUNT"], "csv:header", "the columns are not told", about);
    const line = (p) => { const [mo, d, g] = p.x.split("|"); return [sites.get(p.id).name, mo, new Date(p.t).toISOString(), g, d, String(p.counts)]; };
    const order = [...want].sort((a, b) => { const [x, y] = [a.x.split("|"), b.x.split("|")]; return cmp(x[0], y[0]) || cmp(x[1], y[1]) || cmp(x[2], y[2]) || a.t - b.t; });
    ctx.equal(rows.slice(1), order.map(line), "csv:content", "counts of a month are not published as they are kept", about);
    ctx.expect(new RegExp(`${year}-0?${m}\\.csv`).test(a.headers["content-disposition"] ?? ""), "csv:name", "the file is not named by its month", { ...about, headers: a.headers });
    if (want.length) shown++;
  };

  await updateSites();
  for (let step = rng.int(16, 34); step > 0; step--) {
    w.now += (settled && rng.bool(0.8) ? rng.int(20, 200) * MIN : rng.pick([rng.int(1, 60) * MIN, rng.int(1, 12) * HOUR, rng.int(6, 30) * HOUR])) + rng.int(0, 59999);
    if (rng.bool(0.55)) await updateSites();
    if (rng.bool(0.9)) {
      w.now += rng.int(1, 5000);
      await updateData();
    }
    for (let i = rng.int(1, 3); i > 0; i--) await (rng.bool(0.25) ? csv() : query());
    fault.rate = 0;
  }
  ctx.case(`counts ${index}`, shown > 0);
}
const cmp = (a, b) => (a < b ? -1 : a > b ? 1 : 0);
const sorted = (o) => (o ? Object.fromEntries(Object.entries(o).sort(([a], [b]) => cmp(a, b))) : null);
const parseArray = (x) => (typeof x === "string" ? JSON.parse(x.slice(x.indexOf("["))) : x);
/** the instant of a Finnish local time */
function instant(text) {
  const t = Date.parse(`${text}:00Z`);
  for (const h of [2, 3]) {
    const x = t - h * HOUR;
    if (new Date(x).toLocaleString("sv-SE", { timeZone: "Europe/Helsinki" }).replace(" ", "T").slice(0, 16) === text) return x;
  }
  return NaN;
}
function readCsv(text) {
  const rows = [];
  let row = [];
  let i = 0;
  while (i < text.length) {
    let v = "";
    if (text[i] === '"') {
      for (i++; i < text.length; i++) {
        if (text[i] === '"' && text[i + 1] === '"') v += text[i++];
        else if (text[i] === '"') break;
        else v += text[i];
      }
      i++;
    } else while (i < text.length && !",\r\n".includes(text[i])) v += text[i++];
    row.push(v);
    if (text[i] === ",") i++;
    else {
      rows.push(row);
      row = [];
      i += text[i] === "\r" ? 2 : 1;
    }
  }
  return rows;
}

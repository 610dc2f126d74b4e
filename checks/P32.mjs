// Winter navigation: the data of IBNet followed run by run, and what the public API publishes
// of it. The source of the data, with its versions, is a stand-in that changes all the time.
import { World } from "../harness/world.mjs";
import { Queues, readQueues } from "../harness/queues.mjs";
import { Api, readRoutes } from "../harness/api.mjs";
import { template } from "./P24.mjs";

const APP = "marine/winter-navigation";
const TS = (c, more = "") => `${c} TIMESTAMPTZ ${more} check(${c} is null or typeof(${c}) = 'integer')`;
const B = (c) => `${c} BOOL not null check(${c} in (0, 1))`;
const DDL = `
create table wn_location(id TEXT primary key, name TEXT not null, type TEXT not null, locode_list TEXT not null, nationality TEXT not null, latitude FLOAT8, longitude FLOAT8, ${B("winterport")}, ${B("deleted")});
create table wn_restriction(id TEXT primary key, location_id TEXT not null, text_compilation TEXT not null, ${TS("start_time", "not null")}, ${TS("end_time")}, ${B("deleted")});
create table wn_vessel(id TEXT primary key, name TEXT not null, callsign TEXT, shortcode TEXT, imo INTEGER, mmsi INTEGER, type TEXT, ${B("deleted")});
create table wn_activity(id TEXT primary key, icebreaker_id TEXT, vessel_id TEXT, type TEXT not null, reason TEXT, public_comment TEXT, ${TS("start_time", "not null")}, ${TS("end_time")}, ${B("deleted")});
create table wn_source(id TEXT primary key, name TEXT not null, shortname TEXT, nationality TEXT not null, type TEXT not null, vessel_id TEXT, ${B("deleted")});
create table wn_port_suspension(id TEXT primary key, ${TS("start_time", "not null")}, ${TS("end_time")}, ${B("prenotification")}, ${B("ports_closed")}, due_to TEXT not null, specifications TEXT, ${B("deleted")});
create table wn_port_suspension_location(id TEXT primary key, suspension_id TEXT not null, location_id TEXT not null, ${B("deleted")});
create table wn_queue(id TEXT primary key, icebreaker_id TEXT not null, vessel_id TEXT not null, ${TS("start_time", "not null")}, ${TS("end_time")}, order_num INTEGER not null, ${B("deleted")});
create table wn_dirway(id TEXT primary key, name TEXT not null, description TEXT not null, ${B("deleted")});
create table wn_dirwaypoint(id TEXT primary key, dirway_id TEXT not null, order_num INTEGER not null, name TEXT not null, latitude FLOAT8 not null, longitude FLOAT8 not null, ${B("deleted")});
create table wn_data_version(table_name TEXT primary key, version INTEGER not null, ${TS("modified", "not null")});
create table updated_timestamp(updated_name TEXT primary key, ${TS("updated_time", "not null")}, updated_by TEXT);
`;
const KINDS = ["location", "restriction", "vessel", "activity", "source", "port-suspension", "port-suspension-location", "queue", "dirway", "dirwaypoint"];
/** what goes with an object that disappears: kind -> [kind, field] */
const OWNED = { location: [["restriction", "location_id"], ["port-suspension-location", "location_id"]], vessel: [["activity", "vessel_id"], ["queue", "vessel_id"], ["source", "vessel_id"]], source: [["activity", "icebreaker_id"], ["queue", "icebreaker_id"]], "port-suspension": [["port-suspension-location", "suspension_id"]], dirway: [["dirwaypoint", "dirway_id"]] };
const NEEDS = { locations: ["location", "restriction", "port-suspension", "port-suspension-location"], vessels: ["vessel", "activity", "source", "queue"], dirways: ["dirway", "dirwaypoint"] };
const CHECKED = { locations: "location", vessels: "vessel", dirways: "dirway" };
const V2 = "/api/winter-navigation/v2";
const DAY = 864e5;
const TEXTS = ["ice", "O'Brien", "\u00e4\u00f6 \"q\"", "$1 $& ;--", "a, b", "\\n back\\slash", "{1,2}", "null"];

export default {
  id: "P32",
  rule: "A case is one history of a changing source, updates and queries; non-trivial when something was published.",
  assumptions: ["SQL is executed by SQLite after translation.", "The source answers a request for changes with the latest state of what changed after the first version given and not after the second, and the references of its data are whole.", "Whether an activity with no end that began before the asked time is in progress is left open."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ updates: 600, "updates:failed": 110, "updates:fetch-failed": 180, "fetch-failed": 450, changed: 9000, deleted: 700, revived: 90, "changed-during": 60, queries: 1700, "queries:fault": 120, "queries:unsynced": 350, "queries:not-found": 60, "queries:bad": 140, features: 700, restrictions: 900, suspensions: 180, "many-locodes": 400, vessels: 1100, activities: 1200, "activities:assisted": 180, "activities:assisting": 180, "activities:alone": 800, assistances: 700, "no-imo": 280, "window-left-out": 1700, "reused-number": 20, dirways: 400, points: 180, "too-large": 1, "last-updated": 1000 })) ctx.require(k, n);
    const cfn = await template(APP, "winter-navigation-stack", "WinterNavigationStack", { secretId: "app-secret" });
    const conf = readQueues(cfn, APP);
    const routes = readRoutes(cfn, conf);
    const w = await new World(DDL, { readers: true }).open();
    try {
      for (let i = 0; i < ctx.n(160, 2200); i++) {
        await history(ctx, w, conf, routes, i);
        if (w.sql.unsupported.length) throw new Error("unsupported SQL " + JSON.stringify(w.sql.unsupported[0]));
        if (w.serveError) throw w.serveError;
      }
    } finally {
      await w.close();
    }
  },
};

function makeSource(rng, w, ctx) {
  const all = Object.fromEntries(KINDS.map((k) => [k, new Map()]));
  const src = { rv: rng.int(1, 1000), all, n: 0 };
  const alive = (k) => [...all[k].entries()].filter(([, o]) => !o.deleted).map(([id, o]) => ({ ...o, id }));
  const opt = (f) => (rng.bool(0.7) ? f() : rng.pick([undefined, null]));
  const t = () => rng.pick(TEXTS);
  const time = (ms) => new Date(Math.round(ms / 1000) * 1000 + rng.pick([0, 0, 123])).toISOString();
  const span = () => {
    const a = w.now + rng.int(-20 * 24 * 60, 8 * 24 * 60) * 6e4;
    return { start_time: time(a), ...(rng.bool(0.65) ? { end_time: time(a + rng.int(1, 10 * 24 * 60) * 6e4) } : rng.bool(0.5) ? { end_time: null } : {}) };
  };
  const taken = (field) => new Set(alive("vessel").map((v) => v[field]).filter(Boolean));
  const number = (field, lo, hi, id) => {
    const mine = all.vessel.get(id);
    if (mine?.[field] && rng.bool(0.8) && !alive("vessel").some((v) => v.id !== id && v[field] === mine[field])) return mine[field];
    const gone = [...all.vessel.entries()].filter(([i, v]) => i !== id && v.deleted && v[field] && !taken(field).has(v[field]));
    if (gone.length && rng.bool(0.5)) {
      ctx.observe("reused-number");
      return rng.pick(gone)[1][field];
    }
    for (;;) {
      const v = rng.int(lo, hi);
      if (!taken(field).has(v)) return v;
    }
  };
  const locodes = () => rng.array(rng.int(1, 3), () => `${rng.pick(["FI", "SE", "EE"])}${"ABCDEFGH"[rng.int(0, 7)]}${++src.n}`).join(",");
  const vesselOf = (s) => alive("source").find((x) => x.id === s)?.vessel_id;
  /** the content of an object, or nothing if what it needs is missing */
  const make = {
    location: (id) => ({ name: t(), type: rng.pick(["PORT", "FAIRWAY"]), locode_list: all.location.get(id)?.locode_list && rng.bool(0.7) ? all.location.get(id).locode_list : locodes(), nationality: rng.pick(["FI", "SE"]), latitude: rng.int(58000, 66000) / 1000 + 0.0001, longitude: rng.int(17000, 30000) / 1000 + 0.0001, winterport: rng.bool() }),
    restriction: () => owner("location", "location_id", () => ({ ...span(), text_compilation: t() })),
    vessel: (id) => {
      const imo = rng.bool(0.7) ? number("imo", 1000000, 9999999, id) : undefined;
      const mmsi = imo === undefined || rng.bool(0.7) ? number("mmsi", 100000000, 999999999, id) : rng.pick([undefined, null]);
      return { name: t() + src.n++, callsign: opt(t), shortcode: opt(t), imo, mmsi, type: opt(() => rng.pick(["Icebreaker", "Tanker"])) };
    },
    source: () => owner("vessel", "vessel_id", () => ({ name: t(), shortname: opt(t), nationality: "FI", type: "ICEBREAKER" }), (v) => !alive("source").some((s) => s.vessel_id === v.id)),
    activity: () => {
      const kind = rng.int(0, 2);
      const s = rng.pick([...alive("source"), undefined]);
      const v = rng.pick([...alive("vessel"), undefined]);
      const base = { type: rng.pick(["LED", "TOW", "WAIT", "MOVE"]), reason: opt(t), public_comment: opt(t), ...span() };
      if (kind === 0) return v && { ...base, vessel_id: v.id, icebreaker_id: rng.pick([null, undefined]) };
      if (kind === 1) return s && { ...base, icebreaker_id: s.id, vessel_id: rng.pick([null, undefined]) };
      return s && v && s.vessel_id !== v.id ? { ...base, icebreaker_id: s.id, vessel_id: v.id } : undefined;
    },
    queue: () => owner("source", "icebreaker_id", (s) => {
      const v = rng.pick([...alive("vessel").filter((x) => x.id !== vesselOf(s.id)), undefined]);
      return v && { vessel_id: v.id, ...span(), order_num: rng.int(0, 9) };
    }),
    "port-suspension": () => ({ ...span(), prenotification: rng.bool(), ports_closed: rng.bool(), due_to: t(), specifications: opt(t) }),
    "port-suspension-location": () => owner("location", "location_id", () => {
      const p = rng.pick([...alive("port-suspension"), undefined]);
      return p && { suspension_id: p.id };
    }),
    dirway: () => ({ name: t(), description: t() }),
    dirwaypoint: (id) => owner("dirway", "dirway_id", () => ({ order_num: ++src.n * (rng.bool() ? 1 : -1), name: t(), latitude: rng.int(0, 3) ? rng.int(58000, 66000) / 1000 : 60, longitude: rng.int(17000, 30000) / 1000 })),
  };
  function owner(kind, field, f, fit = () => true) {
    const o = rng.pick([...alive(kind).filter(fit), undefined]);
    const c = o && f(o);
    return c && { ...c, [field]: o.id };
  }
  const set = (kind, id, content) => all[kind].set(id, { ...content, rv: src.rv, change_time: new Date(w.now).toISOString() });
  const remove = (kind, id) => {
    const old = all[kind].get(id);
    all[kind].set(id, { ...old, deleted: true, rv: src.rv });
    ctx.observe("deleted");
    for (const [k, f] of OWNED[kind] ?? []) for (const o of alive(k)) if (o[f] === id) remove(k, o.id);
  };
  src.alive = alive;
  src.change = (n, growing = 5) => {
    for (let i = 0; i < n; i++) {
      src.rv += rng.int(1, 3);
      const kind = rng.bool(0.5) ? rng.pick(["activity", "activity", "queue", "restriction", "dirwaypoint", "vessel"]) : rng.pick(KINDS);
      const ids = [...all[kind].keys()];
      const how = rng.int(0, 9);
      if (how < growing || !ids.length) {
        const id = `${kind[0]}${++src.n}${rng.pick(["", "'", "-x", "$1"])}`;
        const c = make[kind](id);
        if (c) set(kind, id, c);
      } else {
        const id = rng.pick(ids);
        const old = all[kind].get(id);
        if (how < 7 && !old.deleted) remove(kind, id);
        else {
          // an icebreaker stays with its vessel
          const c = kind === "source" && !old.deleted ? { ...make.dirway(), name: rng.pick(TEXTS), nationality: "SE", type: "ICEBREAKER", vessel_id: old.vessel_id } : make[kind](id);
          if (!c || (kind === "activity" && c.icebreaker_id && vesselOf(c.icebreaker_id) === c.vessel_id)) continue;
          if (old.deleted) ctx.observe("revived");
          set(kind, id, c);
        }
      }
      ctx.observe("changed");
    }
  };
  src.huge = (bytes) => {
    const v = rng.pick(alive("vessel"));
    if (!v) return undefined;
    src.rv++;
    set("activity", `huge${src.n++}`, { type: "WAIT", reason: null, public_comment: "\u00e4".repeat(bytes / 2), vessel_id: v.id, icebreaker_id: null, start_time: time(w.now - 36e5), end_time: time(w.now + 36e5) });
    return v;
  };
  return src;
}

const canon = (x) => (Array.isArray(x) ? x.map(canon) : x && typeof x === "object" ? Object.fromEntries(Object.keys(x).sort().map((k) => [k, /Time$|^lastUpdated$/.test(k) && typeof x[k] === "string" ? Date.parse(x[k].replace(/(\.\d{3})\d*/, "$1")) : canon(x[k])])) : x);
const sorted = (a) => a.map((x) => JSON.stringify(canon(x))).sort();
const ms = (x) => (x === null || x === undefined ? null : Date.parse(x));

// ---- what is to be published of a state of the source --------------------------------
function locationsOf(st) {
  const live = (k) => [...st[k].entries()].filter(([, o]) => !o.deleted).map(([id, o]) => ({ ...o, id }));
  const sus = new Map(live("port-suspension").map((s) => [s.id, s]));
  return live("location").map((l) => ({
    locodes: l.locode_list.split(","),
    feature: {
      type: "Feature",
      geometry: { type: "Point", coordinates: [l.longitude, l.latitude] },
      properties: {
        name: l.name, type: l.type, locodeList: l.locode_list, nationality: l.nationality, winterport: l.winterport,
        restrictions: live("restriction").filter((r) => r.location_id === l.id).map((r) => ({ startTime: ms(r.start_time), endTime: ms(r.end_time), textCompilation: r.text_compilation })),
        suspensions: live("port-suspension-location").filter((p) => p.location_id === l.id && sus.has(p.suspension_id)).map((p) => sus.get(p.suspension_id)).map((s) => ({ startTime: ms(s.start_time), endTime: ms(s.end_time), prenotification: s.prenotification, portsClosed: s.ports_closed, dueTo: s.due_to, specifications: s.specifications ?? null })),
      },
    },
  }));
}
const tidyLocation = (f) => ({ ...f, properties: { ...f.properties, restrictions: sorted(f.properties.restrictions ?? []), suspensions: sorted(f.properties.suspensions ?? []) } });
/** vessels in a window of time; an activity with no end counts from its start, or (open) from its start on */
function vesselsOf(st, from, to, open) {
  const live = (k) => [...st[k].entries()].filter(([, o]) => !o.deleted).map(([id, o]) => ({ ...o, id }));
  const vessels = new Map(live("vessel").map((v) => [v.id, v]));
  const icebreakers = new Map(live("source").map((s) => [s.id, vessels.get(s.vessel_id)]));
  const inside = (x) => {
    const a = ms(x.start_time);
    const b = ms(x.end_time);
    return a <= (to ?? Infinity) && (b === null ? open || a >= (from ?? -Infinity) : b >= (from ?? -Infinity));
  };
  const ref = (v) => ({ imo: v.imo ?? null, mmsi: v.mmsi ?? null, name: v.name });
  let out = 0;
  const list = [...vessels.values()].map((v) => {
    const activities = [];
    const plannedAssistances = [];
    for (const a of live("activity")) {
      const ice = a.icebreaker_id ? icebreakers.get(a.icebreaker_id) : undefined;
      const other = a.vessel_id ? vessels.get(a.vessel_id) : undefined;
      if (v !== ice && v !== other) continue;
      if (!inside(a)) {
        out++;
        continue;
      }
      const base = { type: a.type, reason: a.reason ?? null, publicComment: a.public_comment ?? null, startTime: ms(a.start_time), endTime: ms(a.end_time) };
      activities.push(v === other ? { ...base, ...(ice ? { assistingVessel: ref(ice) } : {}) } : { ...base, ...(other ? { assistedVessel: ref(other) } : {}) });
    }
    for (const q of live("queue")) {
      const ice = icebreakers.get(q.icebreaker_id);
      const other = vessels.get(q.vessel_id);
      if (v !== ice && v !== other) continue;
      if (!inside(q)) {
        out++;
        continue;
      }
      plannedAssistances.push({ queuePosition: q.order_num, startTime: ms(q.start_time), endTime: ms(q.end_time), ...(v === other ? { assistingVessel: ref(ice) } : { assistedVessel: ref(other) }) });
    }
    return { vessel: v, shown: { name: v.name, callSign: v.callsign ?? null, shortcode: v.shortcode ?? null, mmsi: v.mmsi ?? null, imo: v.imo ?? null, type: v.type ?? null, activities, plannedAssistances } };
  });
  return { list, out };
}
const tidyVessel = (v) => ({ ...v, activities: sorted(v.activities ?? []), plannedAssistances: sorted(v.plannedAssistances ?? []) });
function dirwaysOf(st) {
  const live = (k) => [...st[k].entries()].filter(([, o]) => !o.deleted).map(([id, o]) => ({ ...o, id }));
  return live("dirway").flatMap((d) => {
    const p = live("dirwaypoint").filter((x) => x.dirway_id === d.id).sort((a, b) => a.order_num - b.order_num).map((x) => [x.longitude, x.latitude]);
    return p.length ? [{ type: "Feature", properties: { name: d.name, description: d.description }, geometry: p.length === 1 ? { type: "Point", coordinates: p[0] } : { type: "LineString", coordinates: p } }] : [];
  });
}

// ---- one history ----------------------------------------------------------------------
async function history(ctx, w, conf, routes, index) {
  const rng = ctx.rng.fork();
  w.reset();
  w.now = Date.UTC(2024, rng.int(0, 3), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59), rng.int(0, 59), rng.int(0, 999));
  const q = new Queues({ ...conf, functions: Object.fromEntries(Object.entries(conf.functions).map(([k, v]) => [k, { ...v }])) }, { rng });
  q.baseEnv = Object.fromEntries(Object.entries(process.env).filter(([k]) => k.startsWith("AWS_")));
  const api = new Api(routes, (id) => q.load(id));
  const updater = Object.values(conf.functions).find((f) => /\/lambda\/update-data\//.test(f.wanted)).id;
  const fault = { rate: 0, hits: 0 };
  w.sql.fail = (ses, sql) => {
    if (/^\s*(rollback|discard|show|set|begin|commit)/i.test(sql) || !fault.rate || !rng.bool(fault.rate)) return undefined;
    fault.hits++;
    return rng.bool(0.15) ? { destroy: true } : { error: { message: "deadlock detected", code: "40P01" } };
  };
  const auth = "aWJuZXQ6c2VjcmV0";
  w.secret({ "ibnet.url": `${w.url}/ibnet/`, "ibnet.authHeaderValue": auth });
  const src = makeSource(rng, w, ctx);
  // the state that is to be published, and what is known of it
  const state = Object.fromEntries(KINDS.map((k) => [k, new Map()]));
  const sure = Object.fromEntries(KINDS.map((k) => [k, true]));
  const whole = Object.fromEntries(Object.keys(NEEDS).map((g) => [g, true]));
  const checked = Object.fromEntries(KINDS.map((k) => [k, { lo: null, hi: null }]));
  let shown = 0;

  const update = async ({ failing = 0, during = 0 } = {}) => {
    w.now += rng.int(200000, 400000) + rng.int(0, 999);
    let to;
    let bad = 0;
    const got = new Map(); // kind -> "ok" | "failed"
    const news = Object.fromEntries(KINDS.map((k) => [k, []]));
    const late = new Set();
    const noVersion = rng.bool(failing / 4);
    const broken = new Set(KINDS.filter(() => rng.bool(failing)));
    const freeze = (k) => {
      // what the source has at this moment, no newer than the version asked
      news[k] = [...src.all[k].entries()].filter(([, o]) => o.rv <= to).map(([id, o]) => [id, { ...o }]);
      if ([...src.all[k].values()].some((o) => o.rv > to)) late.add(k);
    };
    const transient = new Set();
    const failure = (key) => {
      const how = rng.int(0, 3);
      if (how === 0) return { status: rng.pick([400, 401, 403, 404]), body: "{}" };
      if (how === 1) return { status: 200, body: rng.pick(["[{\"id\":", "<html>", ""]) };
      return { status: 503, headers: { "retry-after": "0" }, body: "[]" };
    };
    w.serve = async (r) => {
      if (r.headers.authorization !== `Basic ${auth}`) {
        bad++;
        return { status: 401, body: "{}" };
      }
      if (r.path === "/ibnet/" || r.path === "/ibnet") {
        if (noVersion) return failure();
        to = src.rv;
        return { body: { fromRv: 0, toRv: to } };
      }
      const k = r.path.slice("/ibnet/".length);
      const from = Number(r.query.get("from"));
      const upto = Number(r.query.get("to"));
      if (!KINDS.includes(k) || r.method !== "GET" || !Number.isInteger(from) || !Number.isInteger(upto) || !r.query.get("from") || !r.query.get("to")) return { status: 400, body: "{}" };
      if (during && rng.bool(during)) {
        src.change(rng.int(1, 3));
        ctx.observe("changed-during");
      }
      if (broken.has(k)) {
        got.set(k, "failed");
        return failure();
      }
      if (rng.bool(0.03) && !transient.has(k)) {
        transient.add(k);
        return { status: 503, headers: { "retry-after": "0" }, body: "{}" };
      }
      got.set(k, "ok");
      freeze(k);
      const rows = [...src.all[k].entries()].filter(([, o]) => o.rv > from && o.rv <= upto).map(([id, o]) => (o.deleted ? (rng.bool(0.5) ? { id, rv: o.rv, deleted: true } : { id, ...o }) : { id, ...o }));
      return { body: rng.shuffle(rows) };
    };
    const hits = fault.hits;
    let error;
    try {
      const h = await q.load(updater);
      await h({}, { awsRequestId: "u" });
    } catch (e) {
      error = e;
    }
    w.serve = async () => ({ status: 404, body: "{}" });
    const hit = fault.hits > hits;
    if (hit) await new Promise((x) => setTimeout(x, 5));
    const about = { to, faults: hit, broken: [...broken], noVersion, got: [...got], error: String(error ?? "") };
    ctx.observe("updates");
    ctx.expect(bad === 0, "update:auth", "the source is asked without the credentials of the secret", about);
    if (error) ctx.observe("updates:failed");
    if (hit) ctx.expect(error, "update:hidden", "an update that could not be stored is not noticed", about);
    else if (noVersion) ctx.expect(error, "update:hidden", "an update that could not be made is not noticed", about);
    else if (error) ctx.expect(broken.size > 0 && got.size && [...got.values()].includes("failed"), "update:fails", "an update of sound data fails", about);
    ctx.observe("fetch-failed", [...got.values()].filter((x) => x === "failed").length);
    if ([...got.values()].includes("failed")) ctx.observe("updates:fetch-failed");
    for (const k of KINDS) {
      if (got.get(k) === "failed") continue;
      if (error && !got.has(k)) continue; // perhaps never reached
      if (!got.has(k)) freeze(k);
      for (const [id, o] of news[k]) state[k].set(id, o);
      checked[k].hi = w.now;
      if (error) {
        if (hit) sure[k] = false;
      } else {
        sure[k] = true;
        if (got.has(k)) checked[k].lo = w.now;
      }
    }
    for (const [g, ks] of Object.entries(NEEDS)) whole[g] = !error && ks.every((k) => got.get(k) !== "failed" && sure[k] && !late.has(k));
  };

  const query = async (group, url, verb = "GET") => {
    const hits = fault.hits;
    const a = await api.call(verb, V2 + url);
    if (fault.hits > hits) await new Promise((x) => setTimeout(x, 5));
    const about = { url, status: a.status, error: String(a.error ?? ""), faults: fault.hits > hits, index };
    ctx.observe("queries");
    ctx.expect(a.route?.key === true, "key", "a public method does not ask for an API key", about);
    if (fault.hits > hits) {
      ctx.observe("queries:fault");
      ctx.expect(a.status >= 500, "hidden-failure", "an answer that could not be made is given as if nothing had happened", { ...about, text: a.text.slice(0, 500) });
      return undefined;
    }
    ctx.expect(!a.error && a.status < 500, "failure", "reading published data fails", about);
    if (!whole[group]) ctx.observe("queries:unsynced");
    return { a, about, json: a.status === 200 ? JSON.parse(a.text || "null") : undefined };
  };
  const updatedAt = (group, r) => {
    const { lo, hi } = checked[CHECKED[group]];
    const at = r.json.lastUpdated === null || r.json.lastUpdated === undefined ? null : Date.parse(r.json.lastUpdated);
    ctx.observe("last-updated");
    const about = { ...r.about, at, lo, hi };
    if (at === null) ctx.expect(lo === null, "last-updated:missing", "the time of the latest check of the data is not told", about);
    else {
      ctx.expect(hi !== null && at <= hi, "last-updated:new", "data is told to have been checked when it was not", about);
      ctx.expect(lo === null || at >= lo, "last-updated:old", "the time of the latest check of the data is not told", about);
      ctx.expect(Date.parse(r.a.headers["last-modified"]) === Math.floor(at / 1000) * 1000, "last-modified", "the header does not tell the time of the latest check", { ...about, headers: r.a.headers });
    }
  };
  const askLocations = async () => {
    const r = await query("locations", "/locations", rng.bool(0.9) ? "GET" : "HEAD");
    if (!r?.json) return;
    updatedAt("locations", r);
    if (!whole.locations) return;
    const want = locationsOf(state);
    ctx.observe("features", want.length);
    shown += want.length;
    for (const x of want) {
      ctx.observe("restrictions", x.feature.properties.restrictions.length);
      ctx.observe("suspensions", x.feature.properties.suspensions.length);
      if (x.locodes.length > 1) ctx.observe("many-locodes");
    }
    ctx.expect(r.json.type === "FeatureCollection", "locations:type", "locations are not a collection of features", r.about);
    ctx.equal(sorted(r.json.features.map((f) => tidyLocation(canon(f)))), sorted(want.map((x) => tidyLocation(x.feature))), "locations", "the locations published are not those of the source", r.about);
  };
  const askLocation = async () => {
    const known = [...state.location.values()].flatMap((l) => l.locode_list?.split(",") ?? []);
    const code = rng.bool(0.85) && known.length ? rng.pick(known) : rng.pick(["FIXXX", "FI", "F'I", "%", "A1,A2"]);
    const r = await query("locations", `/locations/${encodeURIComponent(code)}`);
    if (!r || !whole.locations) return;
    const want = locationsOf(state).filter((x) => x.locodes.includes(code));
    if (!want.length) {
      ctx.observe("queries:not-found");
      ctx.expect(r.a.status === 404, "location:not-found", "a location that does not exist is given", { ...r.about, text: r.a.text.slice(0, 300) });
      return;
    }
    if (!ctx.expect(r.a.status === 200, "location:status", "a location is not given", r.about)) return;
    updatedAt("locations", r);
    const { lastUpdated, ...rest } = r.json;
    shown++;
    ctx.equal([tidyLocation(canon(rest))].map((x) => JSON.stringify(canon(x))), sorted([tidyLocation(want[0].feature)]), "location", "the location published is not that of the source", r.about);
  };
  const windowOf = () => {
    const at = () => w.now + rng.int(-15 * 24 * 60, 10 * 24 * 60) * 6e4 + 30500;
    const from = rng.bool(0.5) ? at() : undefined;
    const to = rng.bool(0.4) ? (from ?? w.now - 7 * DAY) + rng.int(1, 20 * 24 * 60) * 6e4 : undefined;
    const text = (t) => rng.pick([new Date(t).toISOString(), new Date(t + 72e5).toISOString().replace("Z", "+02:00"), new Date(t).toISOString().replace(/\.500Z/, ".500+00:00")]);
    const s = new URLSearchParams({ ...(from === undefined ? {} : { activeFrom: text(from) }), ...(to === undefined ? {} : { activeTo: text(to) }) }).toString();
    return { from, to, query: s ? `?${s}` : "" };
  };
  const count = (v) => {
    ctx.observe("vessels");
    if (v.imo === null) ctx.observe("no-imo");
    for (const a of v.activities) {
      ctx.observe("activities");
      ctx.observe(a.assistedVessel ? "activities:assisted" : a.assistingVessel ? "activities:assisting" : "activities:alone");
    }
    ctx.observe("assistances", v.plannedAssistances.length);
  };
  const askVessels = async (tooLarge) => {
    const win = windowOf();
    if (tooLarge) Object.assign(win, { from: undefined, to: undefined, query: "" });
    const r = await query("vessels", `/vessels${win.query}`, rng.bool(0.9) ? "GET" : "HEAD");
    if (!r || !whole.vessels) return;
    const of = (open) => {
      const { list, out } = vesselsOf(state, win.from ?? w.now - 7 * DAY, win.to, open);
      return { out, list: list.map((x) => x.shown).filter((v) => v.activities.length || v.plannedAssistances.length) };
    };
    const both = [of(false), of(true)];
    const size = Buffer.byteLength(JSON.stringify(both[0].list)) + 200;
    if (r.a.status === 200) ctx.expect(JSON.stringify(r.a.raw).length <= 6291556, "vessels:payload", "an answer larger than can be passed on is given", { ...r.about, size });
    if (size > 4.8e6) {
      ctx.observe("too-large");
      ctx.expect(r.a.status === 413, "vessels:too-large", "an answer that is too large to be given is not refused", { ...r.about, size });
      return;
    }
    if (size > 4.6e6) return ctx.observe("large");
    if (!ctx.expect(r.a.status === 200, "vessels:status", "vessels are not given", { ...r.about, size })) return;
    updatedAt("vessels", r);
    ctx.observe("window-left-out", both[0].out);
    both[0].list.forEach(count);
    shown += both[0].list.length;
    const got = JSON.stringify(sorted(r.json.vessels.map((v) => tidyVessel(canon(v)))));
    if (both.some((b) => JSON.stringify(sorted(b.list.map(tidyVessel))) === got)) return;
    ctx.equal(JSON.parse(got), sorted(both[0].list.map(tidyVessel)), "vessels", "the vessels published are not those active in the time asked", { ...r.about, ...win });
  };
  const askVessel = async () => {
    const known = [...state.vessel.values()].flatMap((v) => [v.imo, v.mmsi]).filter(Boolean);
    const id = rng.bool(0.85) && known.length ? rng.pick(known) : rng.pick([5, 77777, 123456789]);
    const win = windowOf();
    const r = await query("vessels", `/vessels/${id}${win.query}`);
    if (!r || !whole.vessels) return;
    const of = (open) => vesselsOf(state, win.from, win.to, open).list.filter((x) => x.vessel.imo === id || x.vessel.mmsi === id).map((x) => x.shown);
    const both = [of(false), of(true)];
    // what is given when no start is asked is not told
    if (win.from === undefined) for (const open of [false, true]) both.push(vesselsOf(state, w.now - 7 * DAY, win.to, open).list.filter((x) => x.vessel.imo === id || x.vessel.mmsi === id).map((x) => x.shown));
    if (!both[0].length) {
      ctx.observe("queries:not-found");
      ctx.expect(r.a.status === 404, "vessel:not-found", "a vessel that does not exist is given", { ...r.about, text: r.a.text.slice(0, 300) });
      return;
    }
    if (!ctx.expect(r.a.status === 200, "vessel:status", "a vessel is not given", r.about)) return;
    updatedAt("vessels", r);
    both[0].forEach(count);
    shown++;
    const { lastUpdated, ...rest } = r.json;
    const got = JSON.stringify(sorted([tidyVessel(canon(rest))]));
    if (both.some((b) => JSON.stringify(sorted(b.map(tidyVessel))) === got)) return;
    ctx.equal(JSON.parse(got), sorted(both[0].map(tidyVessel)), "vessel", "the vessel published is not that of the source", { ...r.about, ...win });
  };
  const askDirways = async () => {
    const r = await query("dirways", "/dirways", rng.bool(0.9) ? "GET" : "HEAD");
    if (!r?.json) return;
    updatedAt("dirways", r);
    if (!whole.dirways) return;
    const want = dirwaysOf(state);
    ctx.observe("dirways", want.length);
    ctx.observe("points", want.filter((f) => f.geometry.type === "Point").length);
    shown += want.length;
    ctx.equal(sorted(r.json.features), sorted(want), "dirways", "the dirways published are not those of the source", r.about);
  };
  const askBad = async () => {
    const url = rng.pick(["/vessels/abc", "/vessels/12x?activeTo=2024-01-01T00:00:00Z", "/vessels?activeFrom=soon", "/vessels?activeTo=2024-13-45", "/vessels/12?activeFrom=x"]);
    const r = await query("vessels", url);
    if (!r) return;
    ctx.observe("queries:bad");
    ctx.expect(r.a.status === 400, "bad-request", "a question that makes no sense is not refused", { ...r.about, text: r.a.text.slice(0, 300) });
  };
  const ask = async (n) => {
    for (let i = 0; i < n; i++) await rng.pick([askLocations, askLocation, askLocation, askVessels, askVessels, askVessel, askVessel, askDirways, askBad])();
  };

  src.change(rng.int(30, 120), 9);
  for (let k = rng.int(4, 8); k > 0; k--) {
    fault.rate = rng.pick([0, 0, 0, 0.01, 0.05]);
    await update({ failing: rng.pick([0, 0, 0.15, 0.4]), during: rng.pick([0, 0, 0.05]) });
    fault.rate = rng.pick([0, 0, 0, 0.1, 0.3]);
    await ask(rng.int(1, 3));
    src.change(rng.pick([0, 1, 3, 15]));
    w.now += rng.int(0, 3) * 36e5;
  }
  fault.rate = 0;
  const large = index % 20 === 7;
  if (large) src.huge([4.9e6, 4.716e6, 4.2e6, 4.705e6, 4.72e6][Math.floor(index / 20) % 5]);
  await update();
  await askLocations();
  await askVessels(large);
  await askDirways();
  await ask(4);
  for (const k of Object.keys(q.functions)) conf.functions[k].module = rng.bool(0.7) ? q.functions[k].module : undefined;
  ctx.case({ index, rv: src.rv }, shown > 0, { shown });
}

// Marine data followed from its sources: the visits of ships to ports and the faults of aids to
// navigation are fetched on schedule, kept, and published as their sources last told them.
import { World } from "../harness/world.mjs";
import { Queues, readQueues } from "../harness/queues.mjs";
import { Api, readRoutes } from "../harness/api.mjs";
import { template } from "./P24.mjs";

const TS = (c, more = "") => `${c} TIMESTAMPTZ ${more} check(${c} is null or typeof(${c}) = 'integer')`;
const B = (c) => `${c} BOOL not null check(${c} in (0, 1))`;
const DDL = `
create table pc2_visit(visit_id TEXT primary key check(length(visit_id) <= 35), vessel_id TEXT, vessel_name TEXT, port_locode TEXT not null, ${TS("eta", "not null")}, ${TS("etd")}, ${TS("ata")}, ${TS("atd")}, status TEXT not null check(status in ('Expected to Arrive', 'Arrived', 'Departed', 'Cancelled')), ${TS("update_time", "not null")}, xmax INTEGER not null default 0);
create table aton_fault_type(name_fi TEXT primary key, name_en TEXT not null, name_sv TEXT not null);
create table aton_fault_state(name_fi TEXT primary key, name_en TEXT not null, name_sv TEXT not null);
create table aton_type(name_fi TEXT primary key, name_en TEXT not null, name_sv TEXT not null);
create table area(area_number INTEGER primary key, description_fi TEXT not null, description_en TEXT not null, description_sv TEXT not null);
create table aton_fault(id INTEGER primary key, ${TS("entry_timestamp", "not null")}, ${TS("fixed_timestamp")}, state TEXT not null references aton_fault_state(name_fi), type TEXT not null references aton_fault_type(name_fi), domain TEXT not null, ${B("fixed")}, aton_id INTEGER not null, aton_name_fi TEXT, aton_name_sv TEXT, aton_type_fi TEXT not null references aton_type(name_fi), fairway_number INTEGER, fairway_name_fi TEXT, fairway_name_sv TEXT, area_number INTEGER not null references area(area_number), geometry WKB not null);
create table updated_timestamp(updated_name TEXT primary key, ${TS("updated_time", "not null")}, updated_by TEXT);
create table data_updated(id TEXT, data_type TEXT, subtype TEXT, ${TS("updated")}, primary key(data_type, subtype));
`;
const DAY = 864e5;
const HOUR = 36e5;
const TEXTS = ["H 10", "Väylä ö", "O'Brien", "\"q\" \\", "$1 $& ;--", "a, b", "null", "{1,2}"];

export default {
  id: "P33",
  rule: "A case is one history of a changing source, updates and queries; non-trivial when something was published.",
  assumptions: ["SQL is executed by SQLite after translation.", "Times of faults are Finnish local time; times that occur twice or never are not used.", "Names of vessels used are in ASCII capitals and digits, and a letter of either case matches only itself in the other case."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ "visit:updates": 110, "visit:told": 2000, "visit:new": 300, "visit:changed": 120, "visit:changed:vessel": 25, "visit:changed:name": 25, "visit:changed:eta": 25, "visit:changed:status": 25, "visit:hit": 1000, "visit:miss": 2000, "visit:far": 50, "visit:ordered": 800, "visit:bad": 40, "visit:queries:fault": 14, "visit:updates:fetch-failed": 18, "visit:updates:fault": 9, "visit:before-failure": 250, "visit:whole-days": 4, "visit:changed-during": 25, "fault:updates": 300, "fault:told": 1600, "fault:registered": 400, "fault:hit": 3800, "fault:miss": 1900, "fault:last-updated": 850, "fault:queries:fault": 80, "fault:updates:fetch-failed": 60, "fault:updates:poisoned": 18, "fault:updates:fault": 14, "fault:whole": 14, "fault:bad": 90, "fault:changed:geometry": 28, "fault:changed:type": 25, "fault:changed:fixed": 25 })) ctx.require(k, n);
    await run(ctx, "marine/port-call", "port-call-stack", "PortCallStack", { secretId: "app-secret", enableUpdate: true }, visits, ctx.n(40, 600));
    await run(ctx, "marine/aton-faults", "aton-faults-stack", "AtonFaultsStack", { secretId: "app-secret", stackFeatures: { enableCanaries: false }, integrations: [{ domain: "C_NA", url: "http://source.test/one/a" }, { domain: "NC_NA", url: "http://source.test/two/b" }] }, faults, ctx.n(130, 1700));
  },
};
export async function run(ctx, app, file, cls, cfg, history, n, ddl = DDL) {
  const cfn = await template(app, file, cls, cfg);
  const conf = readQueues(cfn, app);
  const routes = readRoutes(cfn, conf);
  const w = await new World(ddl, { readers: true }).open();
  try {
    for (let i = 0; i < n; i++) {
      await history(ctx, w, conf, routes, i);
      if (w.sql.unsupported.length) throw new Error("unsupported SQL " + JSON.stringify(w.sql.unsupported[0]));
      if (w.serveError) throw w.serveError;
    }
  } finally {
    await w.close();
  }
}

/** a deployed service with faults of its database to switch on */
export function service(ctx, w, conf, routes, lambda) {
  const rng = ctx.rng.fork();
  w.reset();
  const q = new Queues({ ...conf, functions: Object.fromEntries(Object.entries(conf.functions).map(([k, v]) => [k, { ...v, env: JSON.parse(JSON.stringify(v.env).replaceAll("http://source.test", w.url)) }])) }, { rng });
  q.baseEnv = Object.fromEntries(Object.entries(process.env).filter(([k]) => k.startsWith("AWS_")));
  const api = new Api(routes, (id) => q.load(id));
  const updater = Object.values(conf.functions).find((f) => f.wanted.includes(`/lambda/${lambda}/`)).id;
  const fault = { rate: 0, hits: 0 };
  w.sql.fail = (ses, sql) => {
    if (/^\s*(rollback|discard|show|set|begin|commit)/i.test(sql) || !fault.rate || !rng.bool(fault.rate)) return undefined;
    fault.hits++;
    return rng.bool(0.15) ? { destroy: true } : { error: { message: "deadlock detected", code: "40P01" } };
  };
  const s = { rng, q, api, fault };
  s.update = async (serve) => {
    const hits = fault.hits;
    w.serve = serve;
    let error;
    try {
      const h = await q.load(updater);
      await h({}, { awsRequestId: "u" });
    } catch (e) {
      error = e;
    }
    w.serve = async () => ({ status: 404, body: "{}" });
    const hit = fault.hits > hits;
    if (hit) await new Promise((x) => setTimeout(x, 5));
    return { error, hit };
  };
  s.ask = async (name, url, verb = "GET") => {
    const hits = fault.hits;
    const a = await api.call(verb, url);
    const hit = fault.hits > hits;
    if (hit) await new Promise((x) => setTimeout(x, 5));
    const about = { url, verb, status: a.status, error: String(a.error ?? ""), faults: hit };
    ctx.observe(`${name}:queries`);
    ctx.expect(a.route?.key === true, `${name}:key`, "a public method does not ask for an API key", about);
    if (hit) {
      ctx.observe(`${name}:queries:fault`);
      ctx.expect(a.status >= 500, `${name}:hidden-failure`, "an answer that could not be made is given as if nothing had happened", { ...about, text: a.text.slice(0, 500) });
      return undefined;
    }
    ctx.expect(!a.error && a.status < 500, `${name}:failure`, "reading published data fails", { ...about, text: a.text.slice(0, 300) });
    return { a, about, json: a.status === 200 ? JSON.parse(a.text || "null") : undefined };
  };
  return s;
}
const ms = (x) => (x === null || x === undefined ? null : Date.parse(x));

// ---- visits to ports --------------------------------------------------------------------
const STATUSES = ["Expected to Arrive", "Arrived", "Departed", "Cancelled"];
const FIELDS = { eta: "eta", etd: "etd", ata: "ata", atd: "atd", vesselName: "vesselName", portOfCall: "portOfCall", status: "status" };
async function visits(ctx, w, conf, routes, index) {
  w.now = Date.UTC(2024, ctx.rng.int(0, 11), ctx.rng.int(1, 28), ctx.rng.int(0, 23), ctx.rng.int(0, 59), ctx.rng.int(0, 59), ctx.rng.int(0, 999));
  const s = service(ctx, w, conf, routes, "update-visits");
  const { rng, fault } = s;
  w.secret({ "port-call.url": `${w.url}/nemo`, "port-call.privateKey": Buffer.from("KEY-1").toString("base64"), "port-call.certificate": Buffer.from("CERT-1").toString("base64") });
  const agents = [];
  globalThis.__undici = { agent: (o) => agents.push(o) };

  const source = new Map();
  let n = 0;
  const iso = (t) => (rng.bool() ? new Date(t).toISOString() : new Date(t + 2 * HOUR).toISOString().replace("Z", "+02:00"));
  const near = () => {
    // well inside or well outside of three months
    const d = rng.bool(0.9) ? rng.int(-20 * 24, 83 * 24) : rng.bool() ? rng.int(94 * 24, 98 * 24) : rng.int(-4 * 24, 0);
    return w.now + d * HOUR + rng.int(0, 3599) * 1000 + rng.pick([0, 0, 120]);
  };
  const soon = () => w.now + rng.int(-40, rng.pick([300, 2000])) * HOUR / 10;
  const names = rng.array(4, () => rng.pick(["MS ", "", "X"]) + rng.pick(["AURORA", "BALTICA", "AURA", "NORTH STAR", "M7"]) + rng.int(0, 9));
  const ports = ["FIHEL", "FIKTK", "SESTO", "FITKU"];
  const imos = rng.array(4, () => String(rng.int(1000000, 9999999)));
  const content = (old) => {
    const v = { vessel: rng.pick(imos), name: rng.pick(names), port: rng.pick(ports), eta: rng.bool(0.7) ? soon() : near(), etd: null, ata: null, atd: null, status: rng.pick(STATUSES) };
    if (rng.bool(0.7)) v.etd = v.eta + rng.int(1, 90) * HOUR;
    if (rng.bool(0.4)) v.ata = v.eta + rng.int(-30, 30) * 6e4;
    if (rng.bool(0.3)) v.atd = v.eta + rng.int(1, 90) * HOUR;
    if (!old) return v;
    // one thing changes, or everything, or only when it was told
    const how = rng.int(0, 9);
    if (how === 0) return v;
    if (how === 1) return { ...old };
    const k = rng.pick(Object.keys(v));
    ctx.observe(`visit:changed:${k}`);
    return { ...old, [k]: k === "vessel" || k === "name" || k === "port" || k === "status" ? v[k] : k === "eta" ? soon() : rng.bool(0.3) ? null : soon() };
  };
  const change = (k) => {
    for (let i = 0; i < k; i++) {
      const old = source.size && rng.bool(0.55) ? rng.pick([...source.keys()]) : undefined;
      const id = old ?? `V${++n}${rng.pick(["", "-x", "'", "$1"])}`;
      source.set(id, { ...content(source.get(id)), told: w.now - rng.int(0, 1000) });
    }
  };
  // what was told last of each visit, and what else may be stored of it
  const told = new Map();
  const store = (id, v) => {
    const old = told.get(id);
    const key = ({ told: _, ...c }) => JSON.stringify(c);
    const same = old && key(old.v) === key(v);
    told.set(id, { v, times: same ? [...old.times, v.told] : [v.told], either: undefined });
    ctx.observe(!old ? "visit:new" : same ? "visit:same" : "visit:changed");
  };
  const sure = new Set();
  let shown = 0;
  let done = null;
  const wire = (id, v) => ({ visitId: id, portCall: { vesselInformation: { identification: v.vessel, name: v.name }, voyageInformation: { portIdentification: v.port, estimatedArrivalDateTime: iso(v.eta), estimatedDepartureDateTime: v.etd === null ? null : iso(v.etd) }, arrivalNotification: { actualArrivalDateTime: v.ata === null ? null : iso(v.ata) }, departureNotification: { actualDepartureDateTime: v.atd === null ? null : iso(v.atd) }, portCallStatus: { status: v.status } }, latestUpdateTime: iso(v.told) });

  const update = async ({ failing = 0, during = 0 } = {}) => {
    w.now += rng.int(500000, 700000);
    agents.length = 0;
    const start = w.now;
    const days = [];
    const failAt = rng.bool(failing) ? rng.int(0, 100) : -1;
    let bad = 0;
    const before = new Map(told);
    const { hit } = await s.update(async (r) => {
      const m = /^\/nemo\/([^/]+)\/([^/]+)$/.exec(r.path);
      const [from, to] = m ? [Date.parse(m[1]), Date.parse(m[2])] : [];
      const d = { from, to, ok: false, rows: [] };
      if (!m || r.method !== "GET" || !/^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$/.test(m[1]) || !/^\d{4}-\d\d-\d\dT\d\d:\d\d:\d\dZ$/.test(m[2])) {
        bad++;
        return { status: 400, body: "[]" };
      }
      if (during && rng.bool(during)) {
        change(rng.int(1, 2));
        ctx.observe("visit:changed-during");
      }
      days.push(d);
      if (days.length - 1 === failAt) return rng.bool() ? { status: rng.pick([400, 401, 404, 500, 503]), body: "[]" } : { status: 200, body: rng.pick(["[{\"visitId\"", "<html>", ""]) };
      d.ok = true;
      d.rows = [...source.entries()].filter(([, v]) => [v.eta, v.etd, v.ata, v.atd].some((t) => t !== null && t >= from && t < to)).map(([id, v]) => [id, { ...v }]);
      return { body: rng.shuffle(d.rows).map(([id, v]) => wire(id, v)) };
    });
    const failed = days.some((d) => !d.ok);
    const about = { start, failAt, days: days.length, hit, bad };
    ctx.observe("visit:updates");
    if (failed) ctx.observe("visit:updates:fetch-failed");
    if (hit) ctx.observe("visit:updates:fault");
    ctx.expect(bad === 0, "visits:request", "the source of visits is asked in a way it does not answer", about);
    ctx.expect(agents.every((a) => a?.connect?.cert === "CERT-1" && a?.connect?.key === "KEY-1"), "visits:certificate", "the source of visits is not shown the certificate", { agents: agents.slice(0, 2) });
    if (!failed && !hit) {
      const sorted = [...days].sort((a, b) => a.from - b.from);
      let end = sorted[0]?.from ?? Infinity;
      for (const d of sorted) if (d.from <= end) end = Math.max(end, d.to);
      ctx.expect(sorted[0]?.from <= start - DAY && end >= start + 99 * DAY, "visits:days", "visits of some days are not asked", { ...about, from: sorted[0]?.from, end });
    }
    // a day is stored as a whole, and one after another
    for (const d of days) {
      if (!d.ok) continue;
      for (const [id, v] of d.rows) {
        store(id, v);
        if (hit || failed) sure.delete(id);
        else sure.add(id);
      }
      ctx.observe("visit:told", d.rows.length);
    }
    if (failed && !hit) {
      // what was told before the failing day is stored; what came after it may be
      const at = days.findIndex((d) => !d.ok);
      const after = new Set(days.slice(at + 1).flatMap((d) => d.rows.map(([id]) => id)));
      for (const d of days.slice(0, at)) for (const [id] of d.rows) if (!after.has(id)) sure.add(id);
      ctx.observe("visit:before-failure", days.slice(0, at).flatMap((d) => d.rows).length);
    }
    if (hit) for (const d of days) {
      const ids = d.rows.map(([id]) => id);
      if (!ids.length) continue;
      d.state = ids.map((id) => w.sql.all("select * from pc2_visit where visit_id = ?", id)[0]);
    }
    if (hit) {
      // all or nothing of a day that has only new visits, each told on that day only
      const times = new Map();
      for (const d of days) for (const [id] of d.rows) times.set(id, (times.get(id) ?? 0) + 1);
      for (const d of days) {
        const fresh = d.rows.map(([id]) => id).filter((id) => !before.has(id) && times.get(id) === 1);
        if (fresh.length < 2) continue;
        ctx.observe("visit:whole-days");
        const there = fresh.filter((id) => w.sql.all("select 1 from pc2_visit where visit_id = ?", id).length);
        ctx.expect(there.length === 0 || there.length === fresh.length, "visits:partial", "a part of a day's visits is stored when storing the day failed", { ...about, fresh, there });
      }
    }
    const mark = w.sql.all("select updated_time from updated_timestamp where updated_name = 'PC2_VISITS'")[0]?.updated_time ?? null;
    if (failed || hit) {
      if (failed) ctx.expect(mark === done, "visits:marked", "visits are marked as updated when they could not all be fetched", { ...about, mark, done });
      else ctx.expect(mark === done || mark >= start, "visits:marked", "the mark of the latest update goes back", { ...about, mark, done });
    } else ctx.expect(mark !== null && mark >= start, "visits:unmarked", "an update is not marked as made", { ...about, mark });
    done = mark;
  };

  const query = async () => {
    const p = {};
    const model = {};
    let bad = false;
    const known = [...told.values()].map((x) => x.v);
    const times = known.flatMap((v) => [v.eta, v.etd, v.ata, v.atd]).filter((x) => x !== null);
    if (rng.bool(0.35)) { model.from = rng.bool(0.5) && times.length ? rng.pick(times) + rng.pick([0, 0, 1, -1, 1000]) : near(); p.fromDateTime = new Date(model.from).toISOString(); }
    if (rng.bool(0.35)) { model.to = rng.bool(0.5) && times.length ? rng.pick(times) + rng.pick([0, 0, 1, -1, 1000]) : near(); p.toDateTime = new Date(model.to).toISOString(); }
    if (rng.bool(0.25)) { model.port = rng.pick([...ports, "XXYYY"]); p.portOfCall = rng.bool(0.3) ? model.port.toLowerCase() : model.port; }
    if (rng.bool(0.25)) { const nm = rng.pick(names); const a = rng.int(0, nm.length - 1); model.name = nm.slice(a, a + rng.int(1, 5)); p.vesselName = rng.bool(0.4) ? model.name.toLowerCase() : model.name; }
    if (rng.bool(0.2)) { model.imo = rng.pick([...imos, "1234567"]); p.imo = model.imo; }
    if (rng.bool(0.25)) { model.status = rng.pick(STATUSES); p.status = model.status.toLowerCase().replaceAll(" ", "-"); if (rng.bool(0.2)) p.status = p.status.toUpperCase(); }
    if (rng.bool(0.5)) { model.sort = [rng.pick(Object.keys(FIELDS)), rng.pick(["asc", "desc"])]; p.sort = model.sort.join(":"); }
    if (rng.bool(0.12)) {
      bad = true;
      const [k, v] = rng.pick([["fromDateTime", "yesterday"], ["toDateTime", "2024-13-45"], ["imo", "abc"], ["status", "lost"], ["status", "Expected to Arrive"], ["sort", "eta"], ["sort", "eta:up"], ["sort", "ship:asc"], ["sort", "eta:asc:desc"], ["portOfCall", ""], ["vesselName", ""]]);
      p[k] = v;
    }
    const url = `/api/port-call/v2/visits${Object.keys(p).length ? "?" : ""}${new URLSearchParams(p)}`;
    const r = await s.ask("visit", url, rng.bool(0.92) ? "GET" : "HEAD");
    if (!r) return;
    const about = { ...r.about, index };
    if (bad) {
      ctx.observe("visit:bad");
      ctx.expect(r.a.status === 400, "visits:bad", "a query that means nothing is answered", { ...about, text: r.a.text.slice(0, 300) });
      return;
    }
    if (!ctx.expect(r.a.status === 200 && Array.isArray(r.json), "visits:refused", "a sound query is refused", { ...about, text: r.a.text.slice(0, 300) })) return;
    const hits = (v) => {
      const inside = (t) => t !== null && (model.from === undefined || t >= model.from) && (model.to === undefined || t < model.to);
      if ((model.from !== undefined || model.to !== undefined) && ![v.eta, v.etd, v.ata, v.atd].some(inside)) return false;
      if (model.port && v.port !== model.port) return false;
      if (model.name && !v.name.includes(model.name)) return false;
      if (model.imo && v.vessel !== model.imo) return false;
      if (model.status && v.status !== model.status) return false;
      return v.eta >= w.now - 91 * DAY && v.eta <= w.now + 89 * DAY;
    };
    const got = new Map(r.json.map((x) => [x.visitId, x]));
    ctx.expect(got.size === r.json.length, "visits:twice", "a visit is given more than once", about);
    for (const [id, { v, times: ts }] of told) {
      if (!sure.has(id)) continue;
      const x = got.get(id);
      const want = hits(v);
      ctx.observe(want ? "visit:hit" : "visit:miss");
      if (Math.abs(v.eta - w.now) > 89 * DAY) ctx.observe("visit:far");
      if (!ctx.expect(Boolean(x) === want, want ? "visits:missing" : "visits:extra", want ? "a visit asked for is not given" : "a visit that was not asked for is given", { ...about, id, v })) continue;
      if (!x) continue;
      shown++;
      ctx.equal({ vesselId: x.vesselId, vesselName: x.vesselName, portOfCall: x.portOfCall, eta: ms(x.eta), etd: ms(x.etd), ata: ms(x.ata), atd: ms(x.atd), status: x.status }, { vesselId: v.vessel, vesselName: v.name, portOfCall: v.port, eta: v.eta, etd: v.etd, ata: v.ata, atd: v.atd, status: v.status }, "visits:content", "a visit is not published as its source last told it", { ...about, id });
      ctx.expect(ts.includes(ms(x.updateTime)), "visits:update-time", "the time a visit was told is not that of the source", { ...about, id, got: x.updateTime, ts });
    }
    for (const id of got.keys()) ctx.expect(told.has(id), "visits:unknown", "a visit is published that no source told", { ...about, id });
    // order
    const key = (x) => (model.sort ? (["eta", "etd", "ata", "atd"].includes(model.sort[0]) ? ms(x[model.sort[0]]) : x[model.sort[0]]) : ms(x.ata ?? x.eta));
    const desc = model.sort?.[1] === "desc";
    for (let i = 1; i < r.json.length; i++) {
      const a = key(r.json[i - 1]);
      const b = key(r.json[i]);
      ctx.observe("visit:ordered");
      if (b === null) continue;
      ctx.expect(a !== null && (desc ? a >= b : a <= b), "visits:order", "visits are not in the order asked for", { ...about, a, b, i });
    }
  };

  change(rng.int(5, 25));
  for (let i = rng.int(4, 7), first = true; i > 0; i--, first = false) {
    fault.rate = rng.bool(first ? 0.5 : 0.2) ? rng.pick([0.02, 0.08]) : 0;
    await update({ failing: rng.bool(0.25) ? 1 : 0, during: rng.bool(0.2) ? 0.02 : 0 });
    fault.rate = rng.bool(0.12) ? 0.5 : 0;
    for (let k = rng.int(2, 5); k > 0; k--) await query();
    fault.rate = 0;
    change(rng.int(1, 8));
  }
  await update();
  for (let k = 4; k > 0; k--) await query();
  globalThis.__undici = undefined;
  ctx.case(`visits ${index}`, shown > 0);
}

// ---- faults of aids to navigation ---------------------------------------------------------
const TYPES = ["Valo pimeä", "Rakennelma vaurioitunut", "Pois paikaltaan"];
const STATES = ["Avoin", "Peruttu", "Korjattu", "Aiheeton", "Kirjattu"];
const AIDS = ["Poiju", "Viitta", "Merimajakka"];
const AREAS = [1, 2, 5];
const tr = (x, l) => (l === "fi" ? String(x) : `${x} (${l})`);
/** Finnish local time of an instant, told without a zone */
const local = (t) => {
  const p = Object.fromEntries(new Intl.DateTimeFormat("en-GB", { timeZone: "Europe/Helsinki", year: "numeric", month: "2-digit", day: "2-digit", hour: "2-digit", minute: "2-digit", second: "2-digit", hourCycle: "h23" }).formatToParts(new Date(t)).map((x) => [x.type, x.value]));
  return `${p.year}-${p.month}-${p.day} ${p.hour}:${p.minute}:${p.second}`;
};
/** whether the local time of an instant happens only once */
const once = (t) => local(t) !== local(t - HOUR) && local(t) !== local(t + HOUR);
async function faults(ctx, w, conf, routes, index) {
  const rng0 = ctx.rng;
  w.now = rng0.bool(0.3) ? Date.UTC(2024, rng0.pick([2, 9]), 31, rng0.int(0, 5), 17) : Date.UTC(2024, rng0.int(0, 11), rng0.int(1, 28), rng0.int(0, 23), rng0.int(0, 59), rng0.int(0, 59), rng0.int(0, 999));
  const s = service(ctx, w, conf, routes, "update-faults");
  const { rng, fault } = s;
  const domains = rng.bool(0.2) ? ["C_NA"] : ["C_NA", "NC_NA"];
  const tables = { aton_fault_type: TYPES, aton_fault_state: STATES, aton_type: AIDS };
  for (const [t, names] of Object.entries(tables)) w.sql.insert(t, names.map((x) => ({ name_fi: tr(x, "fi"), name_en: tr(x, "en"), name_sv: tr(x, "sv") })));
  w.sql.insert("area", AREAS.map((a) => ({ area_number: a, description_fi: tr(`alue ${a}`, "fi"), description_en: tr(`alue ${a}`, "en"), description_sv: tr(`alue ${a}`, "sv") })));
  const src = Object.fromEntries(domains.map((d) => [d, new Map()]));
  let n = 0;
  const sec = (t) => {
    let x = Math.floor(t / 1000) * 1000;
    while (!once(x)) x += 2 * HOUR;
    return x;
  };
  const c = () => [rng.int(17000, 30000) / 1000, rng.int(58000, 66000) / 1000];
  const content = (old) => {
    const v = {
      entry: sec(w.now - rng.int(0, 300 * 24 * 60) * 6e4), fixed: rng.bool(0.45) ? sec(w.now - rng.int(0, rng.pick([120, 120, 2]) * 24 * 60) * 6e4) : null, state: rng.pick(STATES), type: rng.pick(TYPES), done: rng.bool(),
      aton: rng.int(1, 99999), fi: rng.pick(TEXTS), sv: rng.pick(TEXTS), aid: rng.pick(AIDS), fairway: rng.int(1, 9999), ffi: rng.pick(TEXTS), fsv: rng.pick(TEXTS), area: rng.pick(AREAS),
      geometry: rng.bool(0.8) ? { type: "Point", coordinates: c() } : { type: "LineString", coordinates: [c(), c(), c()] },
    };
    if (!old) return v;
    const k = rng.pick(Object.keys(v));
    if (rng.bool(0.3)) return v;
    ctx.observe(`fault:changed:${k}`);
    return { ...old, [k]: v[k] };
  };
  const change = (k) => {
    for (let i = 0; i < k; i++) {
      const d = rng.pick(domains);
      const m = src[d];
      const id = m.size && rng.bool(0.55) ? rng.pick([...m.keys()]) : (domains.indexOf(d) ? 1 : -1) * (1000 + ++n) * (rng.bool(0.3) ? 1000 : 1);
      if (m.has(id) && rng.bool(0.15)) m.delete(id);
      else m.set(id, content(m.get(id)));
    }
  };
  const wire = (id, v) => ({ type: "Feature", geometry: v.geometry, properties: { ID: id, FAULT_ENTRY_TIMESTAMP: local(v.entry), FAULT_FIXED_TIMESTAMP: v.fixed === null ? null : local(v.fixed), FAULT_STATE: v.state, FAULT_TYPE: v.type, FAULT_FIXED: v.done ? 1 : 0, TL_NUMERO: v.aton, TL_NIMI_FI: v.fi, TL_NIMI_SE: v.sv, TL_TYYPPI_FI: v.aid, VAYLA_JNRO: v.fairway, VAYLA_NIMI_FI: v.ffi, VAYLA_NIMI_SE: v.fsv, MERIALUE_NRO: v.area, LISA: "x" } });
  const kept = new Map(); // id -> {d, v, or?}
  const checked = { lo: null, hi: null };
  let shown = 0;

  const update = async ({ failing = 0, poison = false } = {}) => {
    w.now += rng.int(500000, 700000) + rng.int(0, 999);
    const got = {};
    const broken = domains.filter(() => rng.bool(failing));
    let poisoned;
    const { error, hit } = await s.update(async (r) => {
      const d = r.path === "/one/a" ? "C_NA" : r.path === "/two/b" ? "NC_NA" : undefined;
      if (!d || r.method !== "GET") return { status: 404, body: "{}" };
      if (!src[d]) return { body: { type: "FeatureCollection", features: [] } };
      if (broken.includes(d)) {
        got[d] = "failed";
        const how = rng.int(0, 4);
        return how === 0 ? { status: rng.pick([400, 401, 403, 404]), body: "{}" } : how === 1 ? { status: 200, body: rng.pick(["{\"features\":", "<html>", ""]) } : how === 2 ? { status: 200, body: { error: "busy" } } : how === 3 ? { status: 503, headers: { "retry-after": "0" }, body: "{}" } : undefined;
      }
      got[d] = [...src[d].entries()].map(([id, v]) => [id, { ...v }]);
      const features = rng.shuffle(got[d]).map(([id, v]) => wire(id, v));
      if (poison && !poisoned && features.length) {
        poisoned = d;
        features.splice(rng.int(0, features.length), 0, wire(777777 + n++, { ...content(), state: "Avoin", type: "Tuntematon" }));
      }
      return { body: { type: "FeatureCollection", features } };
    });
    const about = { got: Object.fromEntries(Object.entries(got).map(([k, v]) => [k, v === "failed" ? v : v.length])), hit, poisoned, error: String(error ?? "") };
    ctx.observe("fault:updates");
    if (Object.values(got).includes("failed")) ctx.observe("fault:updates:fetch-failed");
    if (hit) ctx.observe("fault:updates:fault");
    if (poisoned) ctx.observe("fault:updates:poisoned");
    if (hit || poisoned) ctx.expect(error, "faults:hidden", "an update that could not be stored is not noticed", about);
    else {
      if (error) ctx.expect(Object.values(got).includes("failed"), "faults:fails", "an update of sound data fails", about);
      for (const d of domains) ctx.expect(got[d], "faults:skipped", "a source is not asked", { ...about, d });
    }
    let ok = 0;
    for (const d of domains) {
      if (!got[d] || got[d] === "failed") continue;
      // which of the sources was reached is not known of a failing update
      const before = got[d].filter(([, v]) => v.state !== "Kirjattu");
      if (error) {
        // all or nothing
        const rows = before.map(([id, v]) => ({ id, v, row: w.sql.all("select * from aton_fault where id = ?", id)[0] }));
        const fresh = rows.filter((x) => !kept.has(x.id));
        if (fresh.length > 1) {
          ctx.observe("fault:whole");
          const there = fresh.filter((x) => x.row).length;
          ctx.expect(there === 0 || there === fresh.length, "faults:partial", "a part of the faults told is stored when storing them failed", { ...about, d, fresh: fresh.length, there });
        }
        for (const [id, v] of before) kept.set(id, { d, v, unsure: true });
      } else {
        for (const [id, v] of before) kept.set(id, { d, v });
        ok++;
      }
      ctx.observe("fault:told", before.length);
      ctx.observe("fault:registered", got[d].length - before.length);
    }
    if (ok === domains.length) checked.lo = w.now;
    if (domains.length === 1 || Object.values(got).some((x) => x !== "failed")) checked.hi = w.now;
  };

  const query = async () => {
    const p = {};
    let lang = "en";
    let hours = 168;
    let bad = false;
    if (rng.bool(0.6)) {
      p.language = rng.pick(["fi", "sv", "en", "FI", "SV", "EN", "Fi", "xx", "", "de"]);
      lang = ["fi", "sv", "en"].includes(p.language.toLowerCase()) ? p.language.toLowerCase() : "en";
    }
    if (rng.bool(0.6)) {
      const fixes = [...kept.values()].filter((x) => x.v.fixed !== null).map((x) => Math.ceil((w.now - x.v.fixed) / HOUR));
      hours = rng.bool(0.5) && fixes.length ? rng.pick(fixes) + rng.pick([0, -1]) : rng.int(1, rng.pick([2399, 2399, 36]));
      if (hours <= 0 || hours >= 2400) hours = 2399;
      p.fixed_in_hours = rng.bool(0.1) ? ((hours = 168), "") : String(hours);
    }
    if (rng.bool(0.1)) {
      bad = true;
      p.fixed_in_hours = rng.pick(["0", "-1", "2400", "40000", "rosebud", "1h", "-0.5"]);
    }
    const url = `/api/aton/v1/faults${Object.keys(p).length ? "?" : ""}${new URLSearchParams(p)}`;
    const r = await s.ask("fault", url, rng.bool(0.92) ? "GET" : "HEAD");
    if (!r) return;
    const about = { ...r.about, index, now: w.now };
    if (bad) {
      ctx.observe("fault:bad");
      ctx.expect(r.a.status === 400, "faults:bad", "a query that means nothing is answered", { ...about, text: r.a.text.slice(0, 300) });
      return;
    }
    if (!ctx.expect(r.a.status === 200 && r.json?.type === "FeatureCollection", "faults:refused", "a sound query is refused", { ...about, text: r.a.text.slice(0, 300) })) return;
    const at = ms(r.json.lastUpdated);
    if (at === null) ctx.expect(checked.lo === null, "faults:last-updated:missing", "the time of the latest check of the data is not told", about);
    else {
      ctx.expect(checked.hi !== null && at <= checked.hi, "faults:last-updated:new", "data is told to have been checked when it was not", { ...about, at, ...checked });
      ctx.expect(checked.lo === null || at >= checked.lo - 5, "faults:last-updated:old", "the time of the latest check of the data is not told", { ...about, at, ...checked });
      ctx.expect(Date.parse(r.a.headers["last-modified"]) === Math.floor(at / 1000) * 1000, "faults:last-modified", "the header does not tell the time of the latest check", { ...about, headers: r.a.headers });
      ctx.observe("fault:last-updated");
    }
    const got = new Map(r.json.features.map((f) => [Number(f.properties.id), f]));
    ctx.expect(got.size === r.json.features.length, "faults:twice", "a fault is given more than once", about);
    for (const [id, { d, v, unsure }] of kept) {
      if (unsure) continue;
      const want = v.fixed === null || v.fixed >= w.now - hours * HOUR;
      ctx.observe(want ? "fault:hit" : "fault:miss");
      const f = got.get(id);
      if (!ctx.expect(Boolean(f) === want, want ? "faults:missing" : "faults:extra", want ? "a fault is not published" : "a fault fixed long ago is published", { ...about, id, v })) continue;
      if (!f) continue;
      shown++;
      const x = f.properties;
      ctx.equal({ ...x, id: Number(x.id), entry_timestamp: ms(x.entry_timestamp), fixed_timestamp: ms(x.fixed_timestamp) }, { id, entry_timestamp: v.entry, fixed_timestamp: v.fixed, type: tr(v.type, lang), domain: d, state: tr(v.state, lang), fixed: v.done, aton_id: v.aton, aton_name_fi: v.fi, aton_name_sv: v.sv, aton_type: tr(v.aid, lang), fairway_number: v.fairway, fairway_name_fi: v.ffi, fairway_name_sv: v.fsv, area_number: v.area, area_description: tr(`alue ${v.area}`, lang) }, "faults:content", "a fault is not published as its source last told it", { ...about, id });
      ctx.equal(f.geometry, v.geometry, "faults:geometry", "a fault is not where its source told it to be", { ...about, id });
    }
    for (const id of got.keys()) ctx.expect(kept.has(id), "faults:unknown", "a fault is published that no source told", { ...about, id });
  };

  change(rng.int(3, 14));
  for (let i = rng.int(3, 6); i > 0; i--) {
    fault.rate = rng.bool(0.2) ? rng.pick([0.04, 0.15]) : 0;
    await update({ failing: rng.bool(0.35) ? 0.6 : 0, poison: rng.bool(0.1) });
    fault.rate = rng.bool(0.12) ? 0.5 : 0;
    for (let k = rng.int(2, 5); k > 0; k--) await query();
    fault.rate = 0;
    change(rng.int(1, 8));
    if (rng.bool(0.2)) w.now += rng.int(1, 40) * DAY;
  }
  await update();
  for (let k = 4; k > 0; k--) await query();
  ctx.case(`faults ${index}`, shown > 0);
}

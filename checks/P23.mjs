import { repo } from "../harness/hooks.mjs";
import { World } from "../harness/world.mjs";
import { haversineM } from "../harness/sqlpg.mjs";

const APP = "road/maintenance-tracking-municipality/src/";
const DDL = `
create table maintenance_tracking_domain(name TEXT primary key, source TEXT);
create table maintenance_tracking_domain_contract(domain TEXT not null references maintenance_tracking_domain(name), contract TEXT, name TEXT, source TEXT, start_date TIMESTAMPTZ, end_date TIMESTAMPTZ, data_last_updated TIMESTAMPTZ, primary key(domain, contract));
create table maintenance_tracking_domain_task_mapping(name TEXT, original_id TEXT, domain TEXT, ignore BOOL, info TEXT, unique(domain, original_id));
create table maintenance_tracking_work_machine(id INT8 primary key, harja_id INT8, harja_urakka_id INT8, type TEXT, unique(harja_id, harja_urakka_id));
create table maintenance_tracking(id INT8 primary key, sending_system TEXT, sending_time TIMESTAMPTZ, last_point GEOMETRY, geometry GEOMETRY not null, work_machine_id INT8 not null, start_time TIMESTAMPTZ not null, end_time TIMESTAMPTZ not null, direction NUMERIC, finished BOOL not null, domain TEXT not null, contract TEXT, message_original_id TEXT, previous_tracking_id INT8 references maintenance_tracking(id));
create table maintenance_tracking_task(maintenance_tracking_id INT8 not null references maintenance_tracking(id), task TEXT not null, primary key(maintenance_tracking_id, task));
create table data_updated(id INT8 primary key, data_type TEXT, subtype TEXT default '-', updated TIMESTAMPTZ, unique(data_type, subtype));
`;
const TASKS = ["SALTING", "PLOUGHING", "BRUSHING", "PAVING", "SANDING"];
const MIN = 60_000;

export default {
  id: "P23",
  rule: "A case is one history: machines drive and report events with delays, the provider's interface and the database fail at times, and the real handler runs every few minutes; non-trivial when at least one tracking was expected.",
  assumptions: ["SQL is executed by SQLite after translation; line simplification keeps all points.", "Events of one machine have distinct times, arrive within two minutes, and a run never comes later than seven minutes after the last one that served the machine."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ runs: 400, trackings: 900, "linked-trackings": 60, "extended-ends": 100, "task-changes": 60, "split-by-time": 40, "split-by-distance": 40, "failed-machines": 25, "failed-runs": 15, "replayed-events": 600, "ignored-events": 60, "new-mappings": 60 })) ctx.require(k, n);
    const w = await new World(DDL).open();
    try {
      for (let i = 0; i < ctx.n(70, 900); i++) await history(ctx, ctx.rng, w, i);
    } finally {
      await w.close();
    }
  },
};

const r6 = (v) => Math.round(v * 1e6) / 1e6;
const move = (p, m, deg) => {
  const a = (deg * Math.PI) / 180;
  return [r6(p[0] + (m * Math.sin(a)) / (111195 * Math.cos((p[1] * Math.PI) / 180))), r6(p[1] + (m * Math.cos(a)) / 111195)];
};

/** may the machine have driven from a to b in one go? undefined = too close to a limit to say */
function continues(a, b) {
  const s = (b.t - a.t) / 1000;
  if (s < 0 || s > 305) return false;
  const d = haversineM(a.p, b.p);
  const v = (d / s) * 3.6;
  if (d > 520) return false;
  if (d > 50 && v > 80) return false;
  if (d > 200 && v < 20) return false;
  if (d > 50 && v < 5) return false;
  return true;
}
function nearLimit(a, b) {
  const s = (b.t - a.t) / 1000;
  if (Math.abs(s - 305) < 1) return true;
  const d = haversineM(a.p, b.p);
  const v = (d / s) * 3.6;
  const near = (x, l) => Math.abs(x - l) / l < 0.03;
  return near(d, 520) || near(d, 550) || near(d, 50) || near(d, 200) || near(v, 80) || near(v, 20) || near(v, 5) || (d > 0 && d < 0.5);
}

async function history(ctx, rng, w, no) {
  w.reset();
  const domain = "provider-" + rng.word(3, 8);
  const prefix = "mt." + rng.word(3, 6);
  const apikey = "K" + rng.word(10, 16);
  for (const id of w.secrets.keys()) if (id === "app-secret") {
    const u = w.sql.uri;
    w.secrets.set(id, { username: "u", password: "p", host: u, ro_host: u, proxy_host: u, proxy_ro_host: u, [`${prefix}.apikey`]: apikey, [`${prefix}.url`]: w.url, "other.apikey": "WRONG", "other.url": "http://127.0.0.1:9/" });
  }
  Object.assign(process.env, { DOMAIN_NAME: domain, DOMAIN_PREFIX: prefix, SECRET_ID: "app-secret" });
  const { handler } = await repo(APP + "lambda/paikannin-update-data/paikannin-update-data.ts", { isolated: true });

  // channels and what they mean
  const channels = rng.array(rng.int(3, 7), (i) => ({ id: i, raw: "Ch " + rng.word(2, 6) + i + (rng.bool(0.2) ? " " : ""), task: rng.bool(0.75) ? rng.pick(TASKS) : undefined, listed: true }));
  if (!channels.some((c) => c.task)) channels[0].task = "SALTING";
  const other = "other-domain";
  w.sql.insert("maintenance_tracking_domain", [{ name: domain, source: "city" }, { name: other, source: "x" }]);
  const started = rng.bool(0.9);
  if (started) w.sql.insert("maintenance_tracking_domain_contract", [{ domain, contract: domain, name: domain, source: "city" }]);
  w.sql.insert("maintenance_tracking_domain_contract", [{ domain: other, contract: other, name: other, source: "x" }]);
  const mappings = new Map();
  for (const c of channels) {
    if (c.task) mappings.set(c.raw.trim(), { name: c.task, ignore: false });
    else if (rng.bool(0.5)) mappings.set(c.raw.trim(), { name: rng.pick(["UNKNOWN", ...TASKS]), ignore: true });
  }
  w.sql.insert("maintenance_tracking_domain_task_mapping", [...mappings].map(([original_id, m]) => ({ original_id, name: m.name, ignore: m.ignore, domain, info: "manual" })));
  // the same channels mean something else elsewhere
  w.sql.insert("maintenance_tracking_domain_task_mapping", channels.map((c) => ({ original_id: c.raw.trim(), name: "ELSEWHERE", ignore: false, domain: other, info: "manual" })));
  w.sql.insert("maintenance_tracking_work_machine", [{ id: 9000, harja_id: 1, harja_urakka_id: 42, type: "other" }]);
  w.sql.insert("maintenance_tracking", [{ id: 9000, sending_system: other, sending_time: 0, last_point: { type: "Point", coordinates: [25, 60, 0] }, geometry: { type: "Point", coordinates: [25, 60, 0] }, work_machine_id: 9000, start_time: w.now - 5 * MIN, end_time: w.now + 9999 * MIN, finished: false, domain: other, contract: other, message_original_id: "x" }]);

  // machines and their days
  const t0 = (w.now += rng.int(1, 500) * 1000 + rng.int(0, 999));
  const end = t0 + rng.int(15, 45) * MIN;
  const tasksOf = (chs) => [...new Set(chs.filter((c) => c.task).map((c) => c.task))].sort();
  const machines = rng.array(rng.int(1, 4), (i) => {
    const m = { deviceId: rng.int(1, 1e6) * 10 + i, deviceName: "D" + rng.word(2, 5), events: [], served: [] };
    const noise = rng.bool(0.4) ? channels.filter((c) => !c.task).slice(0, 1) : [];
    let chs = pickChannels(rng, channels);
    let p = [r6(25 + rng.float() * 0.5), r6(60 + rng.float() * 0.5)];
    let t = t0 - rng.int(0, 300) * 1000;
    while (t < end) {
      const last = m.events.at(-1);
      for (let tries = 0; ; tries++) {
        const kind = rng.pick(["drive", "drive", "drive", "drive", "stand", "long", "jump", "slow", "pause"]);
        const s = kind === "pause" ? rng.int(312, 420) : kind === "long" ? rng.int(150, 300) : rng.int(8, 120);
        const d = kind === "stand" ? rng.pick([0, 0, rng.int(1, 45)]) : kind === "jump" ? rng.int(560, 3000) : kind === "slow" ? rng.int(60, 180) : kind === "long" ? rng.int(210, 500) : Math.min(500, Math.round((s * rng.int(22, 75)) / 3.6));
        const e = { t: t + s * 1000 + rng.int(0, 999), p: d === 0 ? p : move(p, d, rng.int(0, 359)) };
        if (last && nearLimit(last, e) && tries < 50) continue;
        if (rng.bool(0.15)) {
          const next = pickChannels(rng, channels);
          // only changes that also change the tasks
          if (JSON.stringify(tasksOf(next)) !== JSON.stringify(tasksOf(chs))) chs = next;
        }
        const idle = rng.bool(0.08);
        m.events.push({ ...e, alt: rng.int(0, 100), heading: rng.int(0, 359), speed: rng.int(0, 80), chs: idle ? noise : rng.shuffle([...chs, ...noise]), arrives: e.t + rng.int(0, 110) * 1000 });
        t = e.t;
        p = e.p;
        break;
      }
    }
    return m;
  });
  // an event close to a limit against its predecessor with tasks would be ambiguous
  for (const m of machines) {
    const kept = [];
    for (const e of m.events) {
      if (tasksOf(e.chs).length === 0) { kept.push(e); continue; }
      const last = kept.findLast((x) => tasksOf(x.chs).length);
      if (last && nearLimit(last, e)) continue;
      kept.push(e);
    }
    m.events = kept;
  }
  const toApi = (m, e) => ({ deviceId: m.deviceId, deviceName: m.deviceName, timest: new Date(e.t).toISOString(), altitude: e.alt, heading: e.heading, lat: e.p[1], lon: e.p[0], speed: e.speed, ioChannels: e.chs.map((c) => ({ id: c.id, name: c.raw })) });
  let outage = "none";
  let window;
  w.serve = async (r) => {
    if (r.headers.api_key !== apikey) return { status: 403, body: "{}" };
    if (r.path === "/public/api/devices/all") return outage === "devices" ? { status: 404, body: "{}" } : { body: machines.map((m) => ({ id: String(m.deviceId), description: m.deviceName, ioChannels: rng.shuffle(channels.filter((c) => c.listed)).map((c) => ({ id: c.id, enabled: true, name: c.raw })) })) };
    const x = /^\/public\/api\/devices\/workevents\/alldevices\/([^/]+)\/([^/]+)$/.exec(r.path);
    if (!x) return { status: 404, body: "{}" };
    if (outage === "events") return { status: 404, body: "{}" };
    window = [Date.parse(x[1]), Date.parse(x[2])];
    return { body: rng.shuffle(machines).map((m) => ({ deviceId: m.deviceId, deviceName: m.deviceName, workEvents: rng.shuffle(m.events.filter((e) => e.t >= window[0] && e.t <= window[1] && e.arrives <= r.at)).map((e) => toApi(m, e)) })) };
  };

  let now = t0;
  const deadline = new Map(machines.map((m) => [m, t0]));
  const runs = [];
  let first = true;
  while (now < end + 6 * MIN) {
    w.now = now;
    const mustServe = machines.filter((m) => now - deadline.get(m) > 2.5 * MIN);
    const healthy = mustServe.length > 0;
    outage = !healthy && rng.bool(0.15) ? rng.pick(["devices", "events", "mapping", "domain", "checked"]) : "none";
    const faulty = outage === "none" ? machines.filter((m) => !mustServe.includes(m) && rng.bool(0.15)).map((m) => ({ m, at: rng.pick(["machine", "insert", "find", "close", "task", "contract", "commit"]) })) : [];
    if (!first && !started && !runs.some((r) => r.started) && runs.length >= 1) w.sql.db.exec(`update maintenance_tracking_domain_contract set source = 'city' where domain = '${domain}'`);
    const isStarted = started || w.sql.all("select source from maintenance_tracking_domain_contract where domain = ?", domain)[0]?.source !== undefined && w.sql.all("select source from maintenance_tracking_domain_contract where domain = ?", domain)[0]?.source !== null;
    const broken = new Set();
    const sessions = new Map();
    w.sql.fail = (ses, sql, params) => {
      const s = sql.replace(/\s+/g, " ").toLowerCase();
      const err = { error: { message: "injected", code: "57014" } };
      if (outage === "mapping" && /insert into maintenance_tracking_domain_task_mapping/.test(s)) return err;
      if (outage === "domain" && /insert into maintenance_tracking_domain\s*\(/.test(s)) return err;
      if (outage === "checked" && /insert into data_updated/.test(s)) return err;
      for (const f of faulty) {
        const row = w.sql.all("select id from maintenance_tracking_work_machine where harja_id = ? and harja_urakka_id <> 42", f.m.deviceId)[0];
        const hit = (re, v) => re.test(s) && params.some((p) => String(p) === String(v));
        if (/insert into maintenance_tracking_work_machine/.test(s)) {
          if (params.some((p) => String(p) === String(f.m.deviceId))) {
            sessions.set(ses, undefined);
            if (f.at === "machine") { broken.add(f.m); return err; }
          }
          continue;
        }
        if (!row) continue;
        if (f.at === "find" && hit(/^select .* from maintenance_tracking t/, row.id)) { broken.add(f.m); return err; }
        const ofMachine = /insert into maintenance_tracking\s*\(/.test(s) ? hit(/./, row.id) : /update maintenance_tracking\b/.test(s) ? w.sql.all("select 1 from maintenance_tracking where work_machine_id = ? and id = ?", row.id, Number(params[0])).length > 0 : undefined;
        if (ofMachine) ses.machine = f.m;
        else if (ofMachine === false) ses.machine = undefined;
        if (ses.machine !== f.m || !ses.inTx) continue;
        if (f.at === "insert" && /insert into maintenance_tracking\s*\(/.test(s)) { broken.add(f.m); return err; }
        if (f.at === "close" && /update maintenance_tracking\b/.test(s)) { broken.add(f.m); return err; }
        if (f.at === "task" && /insert into maintenance_tracking_task\s*\(/.test(s)) { broken.add(f.m); return err; }
        if (f.at === "contract" && /update maintenance_tracking_domain_contract/.test(s)) { broken.add(f.m); return err; }
        if (f.at === "commit" && /^commit/.test(s)) { broken.add(f.m); return err; }
      }
      return undefined;
    };
    window = undefined;
    const before = w.requests.length;
    const rowsBefore = w.sql.all("select count(*) n from maintenance_tracking where domain = ?", domain)[0].n;
    const checkedBefore = w.sql.all("select updated from data_updated where subtype = ?", domain)[0]?.updated;
    const res = await ctx.attempt(() => handler({}, {}, () => {}));
    w.sql.fail = () => undefined;
    if (w.sql.unsupported.length) throw new Error("unsupported SQL: " + JSON.stringify(w.sql.unsupported[0]));
    const witness = () => ({ domain, now: new Date(now).toISOString(), outage, faulty: faulty.map((f) => [f.m.deviceId, f.at]), result: res.ok ? res.value : String(res.error?.message) });
    ctx.observe("runs");
    const rowsAfter = w.sql.all("select count(*) n from maintenance_tracking where domain = ?", domain)[0].n;
    const checked = w.sql.all("select updated from data_updated where data_type = 'MAINTENANCE_TRACKING_DATA_CHECKED' and subtype = ?", domain)[0]?.updated;
    if (outage !== "none" && !(outage === "events" && !isStarted)) {
      ctx.observe("failed-runs");
      ctx.expect(!res.ok, "silent-failure:" + outage, "a run reported success although it could not do its work", witness);
      ctx.equal(checked, checkedBefore, "checked-after-failure", "a failed run marked the data as checked", witness);
      if (outage === "checked" && isStarted && window) for (const m of machines) served(m); // saved, only the mark failed
    } else {
      ctx.expect(res.ok, "run-failed", "a run failed without a reason", () => ({ ...witness(), error: res.error?.stack }));
      ctx.equal(checked, now, "not-checked", "a successful run did not mark the data as checked", witness);
      if (!isStarted) {
        ctx.equal([rowsAfter, w.requests.slice(before).some((r) => r.path.includes("workevents"))], [0, false], "not-started", "data of a domain that is not in use was fetched or saved", witness);
      } else {
        if (!ctx.expect(window && window[0] >= now - 30 * MIN, "no-window", "the events were not asked for", witness)) return;
        ctx.expect(window[0] <= deadlineMin(deadline, machines) - 2 * MIN || first, "gap", "a run asked for events later than the previous runs had reached", () => ({ ...witness(), window: window.map((x) => new Date(x).toISOString()) }));
        const hit = machines.filter((m) => broken.has(m));
        for (const m of machines) if (!broken.has(m)) served(m);
        for (const m of hit) ctx.observe("failed-machines");
        if (res.ok) {
          ctx.equal(res.value.errors, hit.length, "errors", "the number of failed machines is wrong", witness);
          ctx.equal(res.value.saved, rowsAfter - rowsBefore, "saved", "the number of saved trackings is wrong", witness);
        }
      }
    }
    runs.push({ started: isStarted });
    function served(m) {
      deadline.set(m, now);
      const seen = m.served.at(-1)?.upto ?? -Infinity;
      const evs = m.events.filter((e) => e.t >= window[0] && e.t <= window[1] && e.arrives <= now && tasksOf(e.chs).length);
      const fresh = evs.filter((e) => e.t > seen);
      ctx.observe("replayed-events", evs.length - fresh.length);
      ctx.observe("ignored-events", m.events.filter((e) => e.t > seen && e.t <= window[1] && !tasksOf(e.chs).length).length);
      if (fresh.length) m.served.push({ at: now, upto: fresh.at(-1).t, events: fresh });
    }
    if (!(await verify(ctx, w, domain, machines, tasksOf, witness, isStarted))) return;
    mappingCheck(ctx, w, domain, channels, mappings, other, outage, witness);
    first = false;
    now += rng.int(60, 150) * 1000 + rng.int(0, 999);
    if (rng.bool(0.1)) {
      // the provider starts to report a new channel
      channels.push({ id: channels.length, raw: "New " + rng.word(3, 6) + channels.length, task: undefined, listed: true });
    }
  }
  w.now = now + 3600_000;
  // every event within reach was served exactly once, in some run
  for (const m of machines) {
    const all = m.served.flatMap((s) => s.events);
    if (started) for (const e of m.events.filter((x) => tasksOf(x.chs).length && x.t > t0 - 2 * MIN && x.t < end)) ctx.expect(all.includes(e), "lost-event", "an event was never served by any run", () => ({ domain, e: new Date(e.t).toISOString() }));
  }
  ctx.equal(w.sql.all("select finished, previous_tracking_id p, end_time from maintenance_tracking where id = 9000").map((r) => [r.finished, r.p]), [[0, null]], "other-domain", "a tracking of another domain was changed", { domain });
  ctx.case([domain, no, machines.map((m) => m.events.length)], machines.some((m) => m.served.length), { machines: machines.length, events: machines.map((m) => m.events.length), runs: runs.length });
}
const deadlineMin = (deadline, machines) => Math.min(...machines.map((m) => deadline.get(m)));
function pickChannels(rng, channels) {
  for (;;) {
    const s = rng.subset(channels.filter((c) => c.task), 0.45);
    if (s.length) return s;
  }
}

/** what the trackings of a machine must be after its runs so far */
function expected(ctx, m, tasksOf) {
  const out = [];
  let cur;
  let prev;
  for (const run of m.served)
    run.events.forEach((e, i) => {
      const tasks = tasksOf(e.chs);
      const fresh = () => {
        cur = { start: e.t, end: e.t, tasks, pts: [[...e.p, e.alt]], dir: e.heading, last: [...e.p, e.alt], finished: true, prev: undefined };
        out.push(cur);
      };
      const add = (x) => {
        const l = x.pts.at(-1);
        if (l[0] !== e.p[0] || l[1] !== e.p[1]) x.pts.push([...e.p, e.alt]);
        x.end = e.t;
        x.dir = e.heading;
        x.last = [...e.p, e.alt];
      };
      if (!prev) fresh();
      else {
        const goes = continues(prev, e);
        const same = JSON.stringify(tasksOf(prev.chs)) === JSON.stringify(tasks);
        if (i > 0) {
          if (goes && same) add(cur);
          else {
            if (goes) { add(cur); ctx.observe("task-changes"); }
            fresh();
          }
        } else {
          const before = cur;
          if (goes) {
            const l = cur.last;
            if (l[0] !== e.p[0] || l[1] !== e.p[1]) { add(cur); ctx.observe("extended-ends"); }
          }
          fresh();
          if (goes && same) { cur.prev = before; ctx.observe("linked-trackings"); }
        }
        if (!goes) ctx.observe((e.t - prev.t) / 1000 > 305 ? "split-by-time" : "split-by-distance");
      }
      prev = e;
    });
  if (cur) cur.finished = false;
  return out;
}
const iso = (t) => new Date(t).toISOString();
async function verify(ctx, w, domain, machines, tasksOf, witness, started) {
  let all = true;
  const quiet = { observe() {} };
  const known = w.sql.all("select m.id, m.harja_id from maintenance_tracking_work_machine m where harja_urakka_id <> 42");
  ctx.equal(known.length, new Set(known.map((k) => k.harja_id)).size, "machine-twice", "a machine was created twice", witness);
  for (const m of machines) {
    const counts = {};
    const want = expected({ observe: (k) => (counts[k] = (counts[k] ?? 0) + 1) }, m, tasksOf);
    for (const [k, n] of Object.entries(counts)) if (n > (m.obs?.[k] ?? 0)) ctx.observe(k, n - (m.obs?.[k] ?? 0));
    m.obs = counts;
    const id = known.find((k) => k.harja_id === m.deviceId)?.id;
    const rows = id === undefined ? [] : w.sql.all("select * from maintenance_tracking where work_machine_id = ? order by start_time, id", id);
    const have = rows.map((r) => {
      const g = JSON.parse(r.geometry);
      return { start: iso(r.start_time), end: iso(r.end_time), tasks: w.sql.all("select task from maintenance_tracking_task where maintenance_tracking_id = ? order by task", r.id).map((x) => x.task), pts: g.type === "Point" ? [g.coordinates] : g.coordinates, last: JSON.parse(r.last_point).coordinates, dir: Number(r.direction), finished: !!r.finished, prev: r.previous_tracking_id === null ? undefined : rows.findIndex((x) => x.id === r.previous_tracking_id), domain: r.domain, contract: r.contract, system: r.sending_system };
    });
    const should = want.map((x) => ({ start: iso(x.start), end: iso(x.end), tasks: x.tasks, pts: x.pts, last: x.last, dir: x.dir, finished: x.finished, prev: x.prev ? want.indexOf(x.prev) : undefined, domain, contract: domain, system: domain }));
    const i = should.findIndex((s, k) => JSON.stringify(s) !== JSON.stringify(have[k]));
    const at = i >= 0 ? i : have.length > should.length ? should.length : -1;
    if (at >= 0) {
      const s = should[at];
      const h = have[at];
      const field = s && h ? Object.keys(s).find((k) => JSON.stringify(s[k]) !== JSON.stringify(h[k])) : s ? "missing" : "extra";
      ctx.violation("tracking:" + field, "the stored trackings of a machine are not those its events make", { ...witness(), machine: m.deviceId, index: at, should: s, have: h, before: should[at - 1], counts: [should.length, have.length] });
      all = false;
    }
    ctx.observe("assertions");
    if (!m.total || should.length > m.total) {
      ctx.observe("trackings", should.length - (m.total ?? 0));
      m.total = should.length;
    }
  }
  return all;
}
function mappingCheck(ctx, w, domain, channels, mappings, other, outage, witness) {
  const rows = new Map(w.sql.all("select * from maintenance_tracking_domain_task_mapping where domain = ?", domain).map((r) => [r.original_id, r]));
  for (const [id, m] of mappings) {
    const r = rows.get(id);
    ctx.equal(r && [r.name, !!r.ignore], [m.name, m.ignore], "mapping-changed", "a mapping made by hand was changed", () => ({ ...witness(), id }));
  }
  if (outage === "none")
    for (const c of channels) {
      const id = c.raw.trim();
      if (mappings.has(id)) continue;
      const r = rows.get(id);
      ctx.equal(r && [r.name, !!r.ignore], ["UNKNOWN", true], "mapping-missing", "a new channel was not added as unknown and ignored", () => ({ ...witness(), id }));
      mappings.set(id, { name: "UNKNOWN", ignore: true });
      ctx.observe("new-mappings");
    }
  ctx.equal(w.sql.all("select count(*) n from maintenance_tracking_domain_task_mapping where domain = ? and name <> 'ELSEWHERE'", other)[0].n, 0, "mapping-elsewhere", "a mapping of another domain was changed", witness);
}

// Where port activity timestamps come from: pilotages, vessel traffic schedules and
// Awake.AI predictions and observations. The functions of the template are run against
// stand-ins of the sources; what they put on the queue is compared with what the source said.
import http from "node:http";
import https from "node:https";
import { syncBuiltinESMExports } from "node:module";
import { World } from "../harness/world.mjs";
import { Queues, readQueues } from "../harness/queues.mjs";
import { el, render } from "../harness/xmlmini.mjs";
import { target } from "../harness/cfn.mjs";
import { template, PORTACTIVITY_DDL } from "./P24.mjs";

const APP = "marine/portactivity";
const MIN = 60_000;
const HOUR = 60 * MIN;
const iso = (t) => new Date(t).toISOString();
/** the same moment, told in another zone now and then */
const zoned = (rng, t) => {
  if (rng.bool(0.6)) return iso(t);
  const h = rng.pick([2, 3, -5, 10]);
  return iso(t + h * HOUR).replace("Z", `${h < 0 ? "-" : "+"}${String(Math.abs(h)).padStart(2, "0")}:00`);
};
const PORTS = ["FIOUL", "FIPOR", "FISKV", "FIHKO", "FIRAU", "FIUKI", "FIKOK", "FIMUS", "FIHEL", "FIKJO", "FIEJO", "FITOR", "FILPP", "FIVRK", "FIJOE", "FIVAA", "FIRAA", "FIPRS", "FIKAS", "FINLI", "FIKTK", "FITRY", "FIKUO", "FITKU", "FIKEM", "FIMHQ", "FILAN", "FIINK", "FILOV"];
const ETA_PORTS = ["FIKOK", "FIRAU", "FIOUL", "FIKEM", "FIKJO", "FIUKI", "FIPOR"];
const ETD_PORTS = ["FIHEL", "FIHKO", "FIKEM", "FIKOK", "FIKTK", "FIMHQ", "FINLI", "FIOUL", "FIPRS", "FIRAU", "FISKV", "FITKU", "FITOR", "FIUKI", "FIVSS"];
const ETB_PORTS = ["FIRAU"];
const OVERRIDDEN = ["FIHEL", "FIPOR", "FIHKO"];
const ETP_PORTS = ["FIRAU", "FIKOK", "FIKAS", "FIPOR", "FIUKI", "FIHKO", "FIRAA", "FIKEM", "FIPRS"];
const PILOT_CODES = { FIKOY: "FIKOK", FIPIE: "FIPRS", FIVAS: "FIVAA", FIKAK: "FIKAS", FIMAN: "FIPOR", FITHK: "FIPOR", FIHEP: "FIUKI", FIKMR: "FIUKI", FILEV: "FIHKO", FIKVH: "FIHKO", FIVUH: "FIHEL", FI401: "FIHEL", FI402: "FIHEL", FI403: "FIHEL", FI404: "FIHEL", FI405: "FIHEL", FIVAL: "FIHEL", FIKHA: "FIKTK", FIKMU: "FIKTK", FIHMN: "FIKTK", FITRY: "FITOR", FIKAU: "FILPP", FILPM: "FILPP", FIMES: "FILPP", FIMUS: "FILPP", FILPP: "FINUI", FIVRA: "FIVRK", FIEUR: "FIEJO", FIOLK: "FIEJO", FIKEA: "FIKEM", FIKEV: "FIKEM" };

export default {
  id: "P30",
  rule: "A case is a history of runs of one source: what the source says changes between the runs and some of them meet a fault; non-trivial when a timestamp was put on the queue.",
  assumptions: ["The sources are stand-ins on the loopback interface; HTTPS, the ws and SSM packages are stand-ins with their documented semantics.", "Pilotweb gives its times with milliseconds, as it does in production.", "SQL is executed by SQLite after translation.", "Time stands still during a run."],
  async run(ctx) {
    for (const [k, n] of Object.entries({"pilotweb:runs": 140, "pilotweb:sent": 90, "pilotweb:removed": 18, "pilotweb:faults": 60, "pilotweb:looked-up": 30, "pilotweb:split": 35, "schedules:runs": 60, "schedules:sent": 280, "schedules:etb": 30, "schedules:faults": 8, "schedules:empty": 35, "ship:triggered": 150, "ship:sent": 40, "ship:faults": 70, "ship:etp": 5, "ship:etb": 10, "port:eta": 30, "port:etd": 35, "port:errors": 100, "tokens-renewed": 150, "atx:sent": 40, "atx:resumed": 30, "atx:refused": 5, "cleanup:deleted": 60})) ctx.require(k, n);
    const cfg = { dlqBucketName: "pa-dlq", dbClusterIdentifier: "cl", documentationBucketName: "doc", cloudfrontArn: "arn:aws:cloudfront::123456789012:distribution/X", awakeETD: true, secretId: "app-secret" };
    const { cdk } = await import("../harness/infra.mjs");
    const confs = [];
    for (const enableETBForAllPorts of [true, false]) {
      const cfn = await template(APP, "portactivity-stack", "PortActivityStack", { ...cfg, enableETBForAllPorts, dlqNotificationDuration: cdk.Duration.minutes(10) });
      confs.push({ cfn, conf: readQueues(cfn, APP), etbAll: enableETBForAllPorts });
    }
    const w = await new World(PORTACTIVITY_DDL, { readers: true }).open();
    const restore = redirectHttps(w);
    try {
      for (let i = 0; i < ctx.n(70, 900); i++) {
        const e = confs[i % 2];
        for (const [name, f] of Object.entries({ pilotweb, schedules, ships, ports, atx, cleanup })) {
          const rng = ctx.rng.fork(name + i);
          w.reset();
          w.now = Date.UTC(2024, rng.int(0, 11), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59), rng.int(0, 59), rng.int(0, 999));
          await f(ctx, rng, w, env(w, e, rng), i);
          if (w.serveError) throw w.serveError;
          if (w.sql.unsupported.length) throw new Error("unsupported SQL " + JSON.stringify(w.sql.unsupported[0]));
        }
      }
    } finally {
      restore();
      await w.close();
    }
  },
};

/** HTTPS requests to Pilotweb reach the stand-in */
function redirectHttps(w) {
  const { request, get } = https;
  const make = (a, b, c) => {
    const url = typeof a === "string" || a instanceof URL ? new URL(a) : undefined;
    const options = url ? { ...(typeof b === "object" ? b : {}), host: url.hostname, path: url.pathname + url.search } : a;
    const cb = typeof b === "function" ? b : c;
    const host = options.hostname ?? options.host;
    const u = new URL(w.url);
    return http.request({ ...options, protocol: "http:", agent: undefined, host: u.hostname, hostname: u.hostname, port: w.refuse ? 1 : u.port, headers: { ...(options.headers ?? {}), host } }, cb);
  };
  https.request = make;
  https.get = (...a) => {
    const r = make(...a);
    r.end();
    return r;
  };
  syncBuiltinESMExports();
  return () => {
    Object.assign(https, { request, get });
    syncBuiltinESMExports();
  };
}

/** one deployment: its queue, functions and topics */
function env(w, { cfn, conf, etbAll }, rng) {
  const q = new Queues({ ...conf, functions: Object.fromEntries(Object.entries(conf.functions).map(([k, v]) => [k, { ...v }])) }, { rng });
  q.baseEnv = Object.fromEntries(Object.entries(process.env).filter(([k]) => k.startsWith("AWS_")));
  const main = Object.values(conf.queues).find((x) => x.dlq).id;
  const fn = (dir) => Object.values(conf.functions).find((f) => f.wanted.includes(`/lambda/${dir}/`));
  const topics = Object.fromEntries(cfn.of("AWS::SNS::Topic").map(([id]) => [conf.value({ Ref: id }), id]));
  const listeners = (arn) => cfn.of("AWS::SNS::Subscription").filter(([, r]) => target(r.Properties.TopicArn) === topics[arn] && r.Properties.Protocol === "lambda").map(([, r]) => target(r.Properties.Endpoint));
  const e = { w, q, cfn, conf, etbAll, main, fn, listeners, published: [] };
  w.refuse = false;
  w.aws = async (r) => {
    const p = new URLSearchParams(r.body.toString());
    if (p.get("Action") === "Publish") {
      if (e.publishFails?.()) return { status: 500, body: "<ErrorResponse><Error><Code>InternalError</Code></Error></ErrorResponse>" };
      e.published.push({ topic: p.get("TopicArn"), message: p.get("Message") });
      return { headers: { "content-type": "text/xml" }, body: '<PublishResponse xmlns="http://sns.amazonaws.com/doc/2010-03-31/"><PublishResult><MessageId>m</MessageId></PublishResult></PublishResponse>' };
    }
    return { status: 501, body: "" };
  };
  /** run a function of the deployment; the timestamps it put on the queue, or its error */
  e.run = async (dir, ...args) => {
    const f = typeof dir === "string" && conf.functions[dir] ? conf.functions[dir] : fn(dir);
    const from = q.messages.length;
    let error;
    try {
      const h = await q.load(f.id);
      await h(...args);
    } catch (x) {
      error = x;
    }
    const all = q.messages.slice(from);
    return { error, sent: all.filter((m) => m.origin === main).map((m) => JSON.parse(m.body)), stray: all.filter((m) => m.origin !== main) };
  };
  return e;
}
const canon = (v) => JSON.stringify(v, (_, x) => (x && typeof x === "object" && !Array.isArray(x) ? Object.fromEntries(Object.entries(x).sort(([a], [b]) => (a < b ? -1 : 1))) : x));
/** the same timestamps, in any order */
function same(ctx, key, what, sent, expected, witness) {
  const left = expected.map(canon);
  const extra = [];
  for (const s of sent.map(canon)) {
    const i = left.indexOf(s);
    if (i < 0) extra.push(s);
    else left.splice(i, 1);
  }
  ctx.expect(!left.length, `${key}:missing`, `${what}: a timestamp is not sent as the source gave it`, () => ({ missing: left.slice(0, 3), unexpected: extra.slice(0, 3), ...witness?.() }));
  ctx.expect(!extra.length || left.length, `${key}:extra`, `${what}: a timestamp is sent that the source did not give`, () => ({ unexpected: extra.slice(0, 3), ...witness?.() }));
  return !left.length && !extra.length;
}

// ---- port calls ----------------------------------------------------------------------
function fleet(rng, n) {
  return rng.array(n, (i) => ({ mmsi: 230000000 + i * 7 + rng.int(0, 6), imo: 9100000 + i * 11 + rng.int(0, 9), name: rng.text(6) }));
}
/** port calls and vessels, with ships known by one number only */
function portcalls(rng, w, ships, locodes) {
  const calls = [];
  const vessels = [];
  let t = 0;
  for (const s of ships) {
    if (rng.bool(0.5)) vessels.push({ mmsi: s.mmsi, timestamp: w.now - rng.int(1, 100) * HOUR - t++, name: s.name, ship_type: 70, imo: s.imo, call_sign: "X" });
    for (let k = rng.int(0, 5); k > 0; k--) calls.push({ port_call_id: 5000 + calls.length * 3 + rng.int(0, 2), port_call_timestamp: w.now - rng.int(0, 60) * HOUR - 1000 - t++, port_to_visit: rng.pick(locodes), mmsi: rng.bool(0.85) ? s.mmsi : null, imo_lloyds: rng.bool(0.85) ? s.imo : null, vessel_name: s.name, radio_call_sign: "X" });
  }
  w.sql.insert("vessel", vessels);
  w.sql.insert("port_call", calls);
  const latest = (rows, at, col) => rows.toSorted((a, b) => b[at] - a[at])[0]?.[col] ?? undefined;
  /** the port calls of a ship at a port */
  const find = ({ mmsi, imo }, port) => {
    const m = mmsi ?? latest(vessels.filter((v) => v.imo === imo), "timestamp", "mmsi") ?? latest(calls.filter((c) => c.imo_lloyds === imo), "port_call_timestamp", "mmsi");
    const o = imo ?? latest(vessels.filter((v) => v.mmsi === mmsi), "timestamp", "imo") ?? latest(calls.filter((c) => c.mmsi === mmsi), "port_call_timestamp", "imo_lloyds");
    return calls.filter((c) => ((m !== undefined && c.mmsi === m) || (o !== undefined && c.imo_lloyds === o)) && c.port_to_visit === port);
  };
  return { calls, find };
}

// ---- pilotages -----------------------------------------------------------------------
const STATES = ["ESTIMATE", "NOTICE", "ORDER", "ACTIVE", "FINISHED"];
function pilotTimestamp(p) {
  const eta = Date.parse(p.vesselEta);
  const later = iso(p.pilotBoardingTime ? Math.max(eta, Date.parse(p.pilotBoardingTime)) : eta);
  return { ESTIMATE: ["RPS", later], NOTICE: ["RPS", later], ORDER: ["PPS", later], ACTIVE: ["APS", p.vesselEta], FINISHED: ["APC", p.endTime] }[p.state];
}
async function pilotweb(ctx, rng, w, e) {
  const ships = fleet(rng, rng.int(2, 5));
  const codes = ["FIHEL", "FIKOY", "FIPIE", "FIMUS", "FILPP", "FI402", "FIVRA", "FITKU", "FIHKO"];
  const auth = Buffer.from(rng.word(3, 6) + ":" + rng.word(3, 6)).toString("base64");
  w.secret({ "pilotweb.url": "pilotweb.example", "pilotweb.auth": auth });
  const world = portcalls(rng, w, ships, [...new Set(codes.map((c) => PILOT_CODES[c] ?? c))]);
  const remote = new Map();
  const kept = new Map(); // the pilotages of the database: id -> [state, updated]
  let stamps = []; // rows of port_call_timestamp
  let nextId = rng.int(1, 20);
  const fresh = () => {
    const s = rng.pick(ships);
    const id = nextId;
    nextId += rng.pick([1, 1, 9, 90]);
    const vessel = { name: rng.bool(0.5) ? s.name : "Äyskäri 汉 " + s.name, ...(rng.bool(0.85) ? { mmsi: s.mmsi } : {}), imo: s.imo };
    if (vessel.mmsi && rng.bool(0.1)) delete vessel.imo;
    const place = () => ({ code: rng.pick(codes), ...(rng.bool(0.5) ? { berth: { code: rng.pick(["A", "LV5", "Ö1"]) } } : {}) });
    const eta = w.now + rng.int(-600, 3000) * MIN;
    remote.set(id, { id, state: rng.pick(["ESTIMATE", "ESTIMATE", "NOTICE", "ORDER", "ACTIVE", "FINISHED", "CANCELLED"]), vessel, route: { start: place(), end: place() }, vesselEta: zoned(rng, eta), ...(rng.bool(0.6) ? { pilotBoardingTime: zoned(rng, eta + rng.int(-120, 120) * MIN) } : {}), endTime: zoned(rng, eta + rng.int(60, 600) * MIN), scheduleSource: rng.pick(["PILOT", "AGENT"]), scheduleUpdated: iso(w.now - rng.int(0, 3600_000)), ...(rng.bool(0.4) ? { portnetPortCallId: 70000 + id } : {}) });
  };
  for (let i = rng.int(2, 8); i > 0; i--) fresh();
  const rounds = rng.int(3, 6);
  for (let round = 0; round < rounds; round++) {
    w.now += rng.int(30, 600) * 1000;
    if (round) {
      for (const [id, p] of [...remote])
        if (rng.bool(0.2)) remote.delete(id);
        else if (rng.bool(0.35)) remote.set(id, { ...p, ...(rng.bool(0.7) ? { state: STATES[Math.min(STATES.length - 1, Math.max(0, STATES.indexOf(p.state) + rng.pick([0, 1, 1, -1])))] } : {}), vesselEta: iso(Date.parse(p.vesselEta) + rng.int(-60, 60) * MIN), scheduleUpdated: iso(Date.parse(p.scheduleUpdated) + rng.pick([1, 1, 1, -1]) * rng.int(1, 600_000)) });
      for (let i = rng.int(0, 2); i > 0; i--) fresh();
    }
    const list = rng.shuffle([...remote.values()]);
    const fault = rng.pick([undefined, undefined, undefined, undefined, undefined, "status", "cut", "garbage", "refused", "sql", "sql"]);
    const body = Buffer.from(JSON.stringify(list));
    const split = rng.bool(0.4);
    const asked = [];
    w.refuse = fault === "refused";
    w.serve = async (r) => {
      asked.push(r);
      if (r.headers.authorization !== `Basic ${auth}` || r.headers.host !== "pilotweb.example" || r.url !== "/digitraffic/pilotages/active") return { status: 403, body: "{}" };
      if (fault === "status") return { status: rng.pick([500, 503, 401]), body: rng.pick(["[]", '{"message":"no"}', "<html></html>", ""]) };
      if (fault === "garbage") return { body: rng.pick(["", "[{", "<html></html>"]) };
      if (fault === "cut") return { headers: { "content-length": String(body.length + 10) }, chunks: [body.subarray(0, rng.pick([body.length, Math.floor(body.length / 2)]) || 1)], cut: true };
      if (split) {
        const cuts = [...new Set(rng.array(rng.int(1, 4), () => rng.int(1, body.length)))].sort((a, b) => a - b);
        // also inside a character
        const odd = body.findIndex((b) => b >= 0x80 && b < 0xc0);
        if (odd > 0) cuts.push(odd);
        cuts.sort((a, b) => a - b);
        const chunks = [];
        let from = 0;
        for (const c of [...cuts, body.length]) if (c > from) chunks.push(body.subarray(from, (from = c)));
        if (odd > 0) ctx.observe("pilotweb:split");
        return { chunks };
      }
      return { body };
    };
    let hits = 0;
    let countdown = rng.int(0, 12);
    if (fault === "sql") w.sql.fail = (ses, sql) => (/^\s*(rollback|discard|show|set)/i.test(sql) || hits || countdown-- > 0 ? undefined : (hits++, rng.bool(0.2) ? { destroy: true } : { error: { message: "deadlock detected", code: "40P01" } }));
    const rows0 = w.sql.all("select * from pilotage order by id");
    const stamps0 = w.sql.all("select id from port_call_timestamp order by id");
    const { sent, error, stray } = await guard(() => e.run("update-timestamps-from-pilotweb"));
    w.sql.fail = () => undefined;
    ctx.observe("pilotweb:runs");
    const failed = fault && (fault !== "sql" || hits > 0);
    const witness = () => ({ round, fault, error: String(error ?? ""), list: list.slice(0, 4), kept: [...kept].slice(0, 6) });
    ctx.expect(!stray.length, "pilotweb:queue", "something was put on another queue", witness);
    // what the source says now
    const removed = [...kept].filter(([id, [state]]) => state !== "FINISHED" && !remote.has(id)).map(([id]) => id);
    const changed = list.filter((p) => {
      const k = kept.get(p.id);
      return k && k[0] !== "FINISHED" ? k[1] !== p.scheduleUpdated : p.state !== "FINISHED";
    });
    const rows = w.sql.all("select * from pilotage order by id");
    const untouched = () => canon(rows) === canon(rows0) && canon(w.sql.all("select id from port_call_timestamp order by id")) === canon(stamps0);
    if (failed) {
      ctx.observe("pilotweb:faults");
      if (fault !== "sql" || untouched()) {
        ctx.expect(untouched(), "pilotweb:fault-state", "a run that did not get the pilotages changed what is kept", () => ({ ...witness(), rows0, rows }));
        ctx.expect(!sent.length, "pilotweb:fault-sent", "a run that failed sent timestamps", () => ({ ...witness(), sent }));
        continue;
      }
      // the database failed, yet something was stored: then it has to be the whole
    }
    const expected = [];
    for (const p of changed) {
      const t = pilotTimestamp(p);
      if (!t) continue;
      const port = PILOT_CODES[p.route.end.code] ?? p.route.end.code;
      const from = PILOT_CODES[p.route.start.code] ?? p.route.start.code;
      let ids;
      if (p.portnetPortCallId) ids = [p.portnetPortCallId];
      else {
        const near = (x) => world.find(p.vessel, x).filter((c) => c.port_call_timestamp > w.now - 36 * HOUR).map((c) => c.port_call_id);
        const [a, b] = [near(port), near(from)];
        ids = a.length && b.length && port !== from ? b : a.length ? a : b;
        if (ids.length) ctx.observe("pilotweb:looked-up");
      }
      if (!ids.length) continue;
      expected.push({ eventType: t[0], eventTime: t[1], recordTime: p.scheduleUpdated, source: "Pilotweb", sourceId: String(p.id), ship: { ...("mmsi" in p.vessel ? { mmsi: p.vessel.mmsi } : {}), ...("imo" in p.vessel ? { imo: p.vessel.imo } : {}) }, location: { port, from, ...(p.route.end.berth ? { berth: p.route.end.berth.code } : {}) }, ids });
    }
    for (const x of expected) {
      const s = sent.find((y) => y.sourceId === x.sourceId);
      x.portcallId = x.ids.includes(s?.portcallId) ? s.portcallId : x.ids[0];
      delete x.ids;
    }
    same(ctx, failed ? "pilotweb:lost" : "pilotweb", "Pilotweb", sent, expected, witness);
    for (const id of removed) kept.delete(id);
    for (const p of changed) kept.set(p.id, [p.state, p.scheduleUpdated]);
    const all = new Map(list.map((p) => [p.id, p]));
    ctx.equal(rows.map((r) => r.id), [...kept.keys()].sort((a, b) => a - b), "pilotweb:kept", "the pilotages kept are not those of the source", witness);
    for (const r of rows) {
      const k = kept.get(r.id);
      if (!k) continue;
      ctx.expect(r.state === k[0] && iso(r.schedule_updated) === k[1], "pilotweb:state", "a pilotage is kept in another state", () => ({ ...witness(), r }));
      const p = changed.find((x) => x.id === r.id) && all.get(r.id);
      if (p) {
        const [got, want] = [{ n: r.vessel_name, e: r.vessel_eta, b: r.pilot_boarding_time, x: r.pilotage_end_time, m: r.vessel_mmsi, i: r.vessel_imo, sc: r.start_code, ec: r.end_code, sb: r.start_berth, eb: r.end_berth, s: r.schedule_source }, { n: p.vessel.name, e: Date.parse(p.vesselEta), b: p.pilotBoardingTime ? Date.parse(p.pilotBoardingTime) : null, x: Date.parse(p.endTime), m: p.vessel.mmsi ?? null, i: p.vessel.imo ?? null, sc: p.route.start.code, ec: p.route.end.code, sb: p.route.start.berth?.code ?? null, eb: p.route.end.berth?.code ?? null, s: p.scheduleSource }];
        ctx.equal(got, want, "pilotweb:row", "a pilotage is not kept as the source gave it", witness);
      }
    }
    const left = new Set(w.sql.all("select id from port_call_timestamp").map((r) => r.id));
    const gone = stamps.filter((s) => s.event_source === "Pilotweb" && removed.map(String).includes(s.source_id));
    ctx.expect(gone.every((s) => !left.has(s.id)), "pilotweb:stale", "timestamps of a pilotage that is no more are still there", () => ({ ...witness(), removed, gone: gone.slice(0, 3) }));
    stamps = stamps.filter((s) => !gone.includes(s));
    ctx.expect(stamps.every((s) => left.has(s.id)), "pilotweb:lost-timestamp", "timestamps of others were removed", () => ({ ...witness(), removed, lost: stamps.filter((s) => !left.has(s.id)).slice(0, 3) }));
    if (gone.length) ctx.observe("pilotweb:removed", gone.length);
    for (let i = 0; i < sent.length; i++) {
      ctx.observe("pilotweb:sent");
      const s = sent[i];
      const base = (k) => ({ event_type: s.eventType, event_time: Date.parse(s.eventTime) + k, event_source: "Pilotweb", record_time: Date.parse(s.recordTime), location_locode: s.location.port, ship_mmsi: s.ship.mmsi ?? null, ship_imo: s.ship.imo ?? 9999999, portcall_id: s.portcallId, source_id: s.sourceId });
      const add = [base(stamps.length), ...(rng.bool(0.3) ? [{ ...base(stamps.length), ...rng.pick([{ event_source: "Portnet" }, { event_source: "Awake.AI Pred", portcall_id: null }]) }] : []), ...(rng.bool(0.3) ? [{ ...base(stamps.length), source_id: s.sourceId + "0", event_time: base(stamps.length + 1).event_time + 500 }] : [])];
      for (const [j, r] of add.entries()) {
        const id = 100_000 + round * 1000 + i * 10 + j;
        w.sql.insert("port_call_timestamp", { id, ...r });
        stamps.push({ id, ...r });
      }
    }
    ctx.case(canon(sent), sent.length > 0);
  }
}
/** an exception nobody catches is the end of the run, not of the check */
async function guard(f) {
  let crash;
  const on = (x) => (crash = x);
  const others = process.listeners("uncaughtException");
  process.removeAllListeners("uncaughtException");
  process.on("uncaughtException", on);
  try {
    let t;
    const r = await Promise.race([f(), new Promise((_, j) => (t = setTimeout(() => j(new Error("no answer in 8 s")), 8000))), new Promise((_, j) => { const v = setInterval(() => crash && (clearInterval(v), j(crash)), 20); v.unref(); })]).finally(() => clearTimeout(t));
    return r;
  } catch (error) {
    return { error, sent: [], stray: [], crashed: true };
  } finally {
    process.off("uncaughtException", on);
    for (const l of others) process.on("uncaughtException", l);
  }
}

// ---- vessel traffic schedules ----------------------------------------------------------
async function schedules(ctx, rng, w, e, i) {
  const base = rng.pick(["/schedules", "", "/a/b"]);
  w.secret({ "schedules.url": w.url + base });
  for (let round = 0; round < 2; round++) {
    w.now += rng.int(1, 600) * 1000;
    const said = {};
    const docs = {};
    for (const dir of ["east", "west"])
      for (const calc of [false, true]) {
        const list = rng.array(rng.pick([0, 0, 1, 2, 5]), () => ({ id: rng.digits(8), name: rng.text(6), mmsi: rng.int(200000000, 799999999), imo: rng.pick([0, rng.int(9000000, 9999999)]), ...(rng.bool(0.9) ? { destination: rng.bool(0.8) ? rng.pick(PORTS) : rng.pick(["FIXXX", "SESTO", "FIHE", "fihel", "FINUI"]) } : {}), ...(rng.bool(0.7) ? { eta: [iso(w.now + rng.int(-5000, 5000) * MIN), iso(w.now - rng.int(0, 60) * MIN)] } : {}), ...(rng.bool(0.7) ? { etd: [iso(w.now + rng.pick([-6, -5, -4, -1, 1, 60, -60, 3000]) * MIN + rng.int(-20_000, 20_000)), iso(w.now - rng.int(0, 60) * MIN)] } : {}), area: rng.bool(0.5), empty: rng.bool(0.07) }));
        const path = `${base}/${dir}${calc ? "/calculated" : ""}`;
        said[path] = { list, calc };
        docs[path] = '<?xml version="1.0" encoding="UTF-8"?>' + render(el("schedules", {}, ...list.map((s) => el("schedule", { UUID: s.id }, el("vessel", { vesselName: s.name, callsign: "OH", mmsi: String(s.mmsi), imo: String(s.imo) }), s.empty ? el("timetable", {}) : el("timetable", {}, ...(s.destination ? [el("destination", { destination: "x", locode: s.destination, ...(s.area ? { portfacility: "A1" } : {}) })] : []), ...(s.eta ? [el("eta", { time: s.eta[0], uts: s.eta[1] })] : []), ...(s.etd ? [el("etd", { time: s.etd[0], uts: s.etd[1] })] : []))))));
      }
    const bad = rng.bool(0.2) ? rng.pick(Object.keys(docs)) : undefined;
    const how = rng.pick(["status", "garbage"]);
    const asked = [];
    w.serve = async (r) => {
      asked.push(`${r.method} ${r.url}`);
      if (r.path === bad) return how === "status" ? { status: rng.pick([400, 401, 404]), body: "<schedules/>" } : { body: "<schedules><schedule>" };
      return docs[r.path] && r.method === "GET" ? { headers: { "content-type": "application/xml; charset=utf-8" }, body: docs[r.path] } : { status: 404, body: "" };
    };
    const { sent, error } = await e.run("update-timestamps-from-schedules");
    ctx.observe("schedules:runs");
    const expected = [];
    for (const { list, calc } of Object.values(said))
      for (const s of list) {
        if (s.empty || !s.destination || !PORTS.includes(s.destination)) continue;
        const ts = (eventType, [eventTime, recordTime]) => ({ location: { port: s.destination }, eventType, eventTime, recordTime, source: calc ? "SCHEDULES_CALCULATED" : "SCHEDULES_VTS_CONTROLLED", ship: { mmsi: s.mmsi, imo: s.imo } });
        if (s.eta) {
          expected.push(ts("ETA", s.eta));
          if (calc && (e.etbAll || ETB_PORTS.includes(s.destination))) expected.push(ts("ETB", s.eta));
        }
        if (s.etd && Date.parse(s.etd[0]) >= w.now - 5 * MIN) expected.push(ts("ETD", s.etd));
      }
    const witness = () => ({ round, bad, how, error: String(error ?? ""), asked, docs: Object.values(docs).map((d) => d.slice(0, 500)) });
    if (bad) {
      ctx.observe("schedules:faults");
      // nothing that was not said
      const left = expected.map(canon);
      ctx.expect(sent.every((s) => left.includes(canon(s))), "schedules:fault-extra", "with one schedule missing, a timestamp is sent that was not given", () => ({ ...witness(), sent: sent.slice(0, 3) }));
      ctx.expect(error, "schedules:fault-unseen", "a schedule that could not be read goes unnoticed", witness);
    } else {
      if (Object.values(said).some((x) => !x.list.length)) ctx.observe("schedules:empty");
      ctx.expect(!error, "schedules:error", "schedules could not be read", witness);
      same(ctx, "schedules", "schedules", sent, expected, witness);
    }
    ctx.observe("schedules:sent", sent.length);
    ctx.observe("schedules:etb", sent.filter((s) => s.eventType === "ETB").length);
    ctx.case(canon(sent), sent.length > 0);
  }
}

// ---- Awake.AI --------------------------------------------------------------------------
/** the token endpoint, and the tokens that are good now */
function oauth(ctx, rng, w, prefix) {
  const o = { id: rng.word(3, 6), secret: "s" + rng.text(6), tokens: new Map(), fails: () => false, life: rng.pick([100, 600, 3600]) };
  w.secret({ "awake.oAuthTokenEndpoint": `${w.url}/oauth/token`, "awake.oAuthClientId": o.id, "awake.oAuthClientSecret": o.secret, "awake.voyagesurl": w.url + prefix, "awake.atxurl": "wss://awake.example/atx" });
  o.answer = (r) => {
    if (r.path !== "/oauth/token") return undefined;
    const f = new URLSearchParams(r.body.toString());
    if (r.method !== "POST" || f.get("client_id") !== o.id || f.get("client_secret") !== o.secret || f.get("grant_type") !== "client_credentials") return { status: 401, body: '{"error":"invalid_client"}' };
    if (o.fails()) return rng.pick([{ status: 500, body: "{}" }, { body: "{}" }, { status: 401, body: "{}" }]);
    if (o.tokens.size) ctx.observe("tokens-renewed");
    const token = `t${o.tokens.size}${rng.word(4, 8)}`;
    o.tokens.set(token, w.now + o.life * 1000);
    return { body: { token_type: "Bearer", expires_in: o.life, access_token: token } };
  };
  o.good = (header) => o.tokens.get(/^Bearer (.+)$/.exec(header ?? "")?.[1]) > w.now;
  return o;
}
const sns = (message) => ({ Records: [{ EventSource: "aws:sns", EventVersion: "1.0", EventSubscriptionArn: "x", Sns: { Type: "Notification", MessageId: "m", TopicArn: "t", Message: message, Timestamp: "2024-01-01T00:00:00.000Z" } }] });
const OTHER_TYPES = ["travel-time", "destination"];
function prediction(rng, w, type, locode, hours) {
  return {
    predictionType: type,
    ...(rng.bool(0.8) ? { recordTime: iso(w.now - rng.int(0, 3600) * 1000) } : {}),
    locode,
    zoneType: rng.pick(["berth", "berth", "berth", "berth", "pbp", "pbp", "vts", "portarea", "anchorage"]),
    ...(rng.bool(0.93) ? { [type === "etd" ? "departureTime" : "arrivalTime"]: zoned(rng, w.now + hours * HOUR + rng.int(-1800, 1800) * 1000) } : {}),
    ...(rng.bool(0.7) ? { metadata: { source: rng.bool(0.85) ? "urn:awake:prediction" : `urn:awake:digitraffic-portcall:${rng.digits(7)}`, ...(rng.bool(0.6) ? { errorQuantiles: { q10: -rng.int(1, 900), q25: -1, q75: 1, q90: rng.int(1, 900) } } : {}) } } : {}),
  };
}
const ours = (p) => !(p.metadata?.source ?? "").includes("digitraffic-portcall");
const finnish = (l) => /^fi/i.test(l ?? "");
const confidence = (p) => (p.metadata?.errorQuantiles ? { eventTimeConfidenceLowerDiff: p.metadata.errorQuantiles.q10, eventTimeConfidenceUpperDiff: p.metadata.errorQuantiles.q90 } : {});

async function ships(ctx, rng, w, e) {
  const o = oauth(ctx, rng, w, "/voyages");
  const fl = fleet(rng, rng.pick([1, 6, 10, 30]));
  const rows = [];
  const calls = [];
  const areas = [];
  let id = 1;
  let t = 0;
  for (const s of fl)
    for (let k = rng.int(1, 3); k > 0; k--) {
      const call = { port_call_id: 7000 + calls.length, port_call_timestamp: w.now - rng.pick([1, 20, 60, 71, 73, 200]) * HOUR, port_to_visit: "X", mmsi: s.mmsi, imo_lloyds: s.imo };
      if (rng.bool(0.95)) calls.push(call);
      const locode = rng.bool(0.9) ? rng.pick(rng.bool(0.5) ? PORTS : ["FIHEL", "FIPOR", "FIHKO", "FIRAU", "FIKOK"]) : "FINUI";
      const area = rng.bool(0.5) ? rng.pick(["A", "VUOS"]) : null;
      for (let a = rng.int(1, 2); a > 0; a--) areas.push({ port_area_details_id: areas.length + 1, port_call_id: call.port_call_id, ata: rng.bool(0.15) ? w.now - HOUR : null });
      const base = { event_type: "ETA", event_source: "Portnet", location_locode: locode, ship_mmsi: s.mmsi, ship_imo: s.imo, portcall_id: call.port_call_id, location_portarea: area, location_from_locode: rng.bool(0.3) ? "FITKU" : null };
      const eta = w.now + rng.pick([-3, 1, 5, 20, 23, 24, 25, 48, 80, 83, 85, 100]) * HOUR + t++ * 1000 + rng.int(1, 900);
      rows.push({ id: id++, ...base, event_time: eta, record_time: w.now - rng.int(1, 10) * HOUR });
      if (rng.bool(0.4)) rows.push({ id: id++, ...base, event_time: eta + rng.pick([-30, 30, 90]) * HOUR, record_time: w.now - rng.int(11, 20) * HOUR });
      if (rng.bool(0.2)) rows.push({ id: id++, ...base, event_type: rng.pick(["ETD", "ATA", "ETB"]), event_time: w.now + HOUR, record_time: w.now - HOUR });
      if (rng.bool(0.25)) rows.push({ id: id++, ...base, event_source: "Awake.AI", event_time: w.now + rng.pick([5, 14, 16, 60, -30]) * MIN, record_time: w.now - rng.int(1, 30) * MIN });
      if (rng.bool(0.1)) rows.push({ id: id++, ...base, event_source: "Awake.AI", event_time: w.now + rng.pick([5, 16]) * MIN, record_time: w.now - rng.int(31, 60) * MIN });
    }
  w.sql.insert("port_call", calls);
  w.sql.insert("port_area_details", areas);
  w.sql.insert("port_call_timestamp", rows);
  // whose arrival is asked
  const newest = (r) => r.record_time === Math.max(...rows.filter((x) => ["event_type", "location_locode", "event_source", "ship_mmsi", "portcall_id"].every((k) => x[k] === r[k])).map((x) => x.record_time));
  const candidates = rows.filter((r) => r.event_type === "ETA" && r.event_source === "Portnet" && PORTS.includes(r.location_locode) && r.event_time < w.now + 84 * HOUR && newest(r) && calls.some((c) => c.port_call_id === r.portcall_id && c.port_call_timestamp > w.now - 72 * HOUR) && areas.some((a) => a.port_call_id === r.portcall_id && a.ata === null));
  const first = new Map();
  for (const c of candidates.toSorted((a, b) => a.event_time - b.event_time)) if (!first.has(c.ship_imo)) first.set(c.ship_imo, c);
  const near = new Set(rows.filter((r) => r.event_type === "ETA" && r.event_source === "Awake.AI" && newest(r) && r.event_time < w.now + 15 * MIN && [...first.values()].some((f) => f.portcall_id === r.portcall_id)).map((r) => r.ship_imo));
  const wanted = [...first.values()].filter((r) => !near.has(r.ship_imo)).map((r) => ({ imo: r.ship_imo, locode: r.location_locode, port_area_code: r.location_portarea ?? null, portcall_id: r.portcall_id, eta: iso(r.event_time) }));
  const trig = await e.run("trigger-awake-ai-eta-ship-timestamps-update");
  const told = e.published.flatMap((p) => JSON.parse(p.message));
  ctx.expect(!trig.error, "ship:trigger-error", "the ships to ask for could not be found", () => ({ error: String(trig.error?.stack ?? trig.error) }));
  const key = (s) => canon({ imo: s.imo, locode: s.locode, port_area_code: s.port_area_code ?? null, portcall_id: s.portcall_id, eta: iso(Date.parse(s.eta)) });
  ctx.equal(told.map(key).sort(), wanted.map(key).sort(), "ship:trigger", "other ships are asked for than those expected in port", () => ({ rows: rows.slice(0, 12), areas, calls, near: [...near] }));
  ctx.observe("ship:triggered", told.length);

  for (const p of rng.shuffle(e.published)) {
    w.now += rng.int(0, 20) * 1000;
    const listeners = e.listeners(p.topic);
    ctx.expect(listeners.length === 1, "ship:listener", "the update is not told which ships to ask for", { topic: p.topic, listeners });
    const group = JSON.parse(p.message);
    const plan = new Map();
    const expected = [];
    const now = w.now;
    for (const s of group) {
      const diff = Math.floor((Date.parse(s.eta) - now) / HOUR);
      const fault = rng.pick([undefined, undefined, undefined, undefined, undefined, "once", "twice", "404", "422", "500", "garbage"]);
      const mmsi = rng.int(200000000, 799999999);
      const voyages = rng.array(rng.pick([1, 1, 1, 2, 0]), (k) => ({ voyageStatus: rng.pick(["underway", "underway", "underway", "underway", "underway", "stopped", "not-started"]), sequenceNo: k, predictions: rng.array(rng.int(0, 5), () => (rng.bool(0.15) ? { predictionType: rng.pick(OTHER_TYPES), locode: s.locode } : prediction(rng, { now }, rng.pick(["eta", "eta", "eta", "eta", "etd"]), rng.bool(0.7) ? s.locode : rng.pick(["FIRAU", "FIKOK", "FIHEL", "SESTO", "fipor", "FITKU"]), rng.int(-2, 60)))) }));
      const schedule = { ship: { mmsi, imo: s.imo, shipName: "x" }, predictability: rng.pick(["predictable", "predictable", "predictable", "predictable", "predictable", "predictable", "not-predictable", "ship-data-not-updated"]), predictedVoyages: voyages };
      plan.set(s.imo, { s, diff, fault, schedule, calls: 0 });
      if (fault && fault !== "once") continue;
      if (schedule.predictability !== "predictable" || voyages[0]?.voyageStatus !== "underway") continue;
      for (const x of voyages[0].predictions) {
        if (x.predictionType !== "eta" || !ours(x)) continue;
        let port = x.locode;
        if (x.locode !== s.locode) {
          if (diff >= 24) continue;
          if (OVERRIDDEN.includes(s.locode)) port = s.locode;
        }
        if (x.zoneType === "pbp" && !ETP_PORTS.includes(port)) continue;
        if (!x.arrivalTime || !finnish(x.locode)) continue;
        const ts = { ship: { mmsi, imo: s.imo }, location: { port: s.locode, ...(s.port_area_code !== undefined ? { portArea: s.port_area_code } : {}) }, source: "Awake.AI", eventTime: x.arrivalTime, recordTime: x.recordTime ?? iso(now), portcallId: s.portcall_id, eventType: x.zoneType === "pbp" ? "ETP" : "ETA", ...confidence(x) };
        expected.push(ts);
        if (ts.eventType === "ETA" && (e.etbAll || ETB_PORTS.includes(s.locode))) expected.push({ ...ts, eventType: "ETB" });
      }
    }
    const wrong = [];
    const noToken = rng.bool(0.05);
    o.fails = () => noToken;
    w.serve = async (r) => {
      const a = o.answer(r);
      if (a) return a;
      const imo = Number(/^\/voyages\/ship\/(\d+)$/.exec(r.path)?.[1]);
      const x = plan.get(imo);
      if (!x || r.method !== "GET") return wrong.push(`${r.method} ${r.url}`), { status: 404, body: "{}" };
      if (!o.good(r.headers.authorization)) return wrong.push("token " + r.headers.authorization), { status: 401, body: "{}" };
      if (r.query.get("predictionMetadata") !== "true") wrong.push("no metadata " + r.url);
      if (r.query.get("destination") !== (x.diff < 24 ? x.s.locode : null)) wrong.push(`destination ${r.url} diff ${x.diff} ${x.s.locode}`);
      x.calls++;
      if (x.fault === "twice" || (x.fault === "once" && x.calls === 1)) return undefined;
      if (x.fault === "garbage") return { body: "{" };
      if (x.fault && x.fault !== "once") return { status: Number(x.fault), body: "{}" };
      return { body: x.schedule };
    };
    const { sent, error } = await e.run(listeners[0], sns(p.message));
    const witness = () => ({ error: String(error?.stack ?? ""), faults: [...plan.values()].map((x) => [x.s.imo, x.fault, x.calls]), schedules: [...plan.values()].slice(0, 3).map((x) => ({ ship: x.s, diff: x.diff, schedule: x.schedule })) });
    ctx.expect(!wrong.length, "ship:request", "a request to the predictions is not what it should be", () => ({ wrong: wrong.slice(0, 3) }));
    ctx.expect(!error, "ship:error", "the predictions of ships were given up", witness);
    same(ctx, "ship", "ship predictions", sent, noToken && [...plan.values()].every((x) => !x.calls) ? [] : expected, witness);
    ctx.observe("ship:sent", sent.length);
    ctx.observe("ship:faults", [...plan.values()].filter((x) => x.fault).length);
    ctx.observe("ship:etp", sent.filter((s) => s.eventType === "ETP").length);
    ctx.observe("ship:etb", sent.filter((s) => s.eventType === "ETB").length);
    ctx.case(canon(sent), sent.length > 0);
  }
}

async function ports(ctx, rng, w, e) {
  const o = oauth(ctx, rng, w, "/v2");
  for (const [kind, list] of [["eta", ETA_PORTS], ["etd", ETD_PORTS]]) {
    e.published = [];
    const trig = await e.run(`trigger-awake-ai-${kind}-port-timestamps-update`);
    ctx.expect(!trig.error, `port:${kind}:trigger-error`, "the ports to ask for were not told", () => ({ error: String(trig.error) }));
    ctx.equal(e.published.map((p) => p.message).sort(), list.toSorted(), `port:${kind}:trigger`, "other ports are asked for than those listed", { kind });
    for (const p of rng.shuffle(e.published).slice(0, 4)) {
      w.now += rng.int(0, 900) * 1000;
      const now = w.now;
      const listeners = e.listeners(p.topic);
      ctx.expect(listeners.length === 1, `port:${kind}:listener`, "the update is not told which port to ask for", { topic: p.topic });
      const locode = p.message;
      const schedule = rng.array(rng.int(0, 6), (k) => {
        const predictions = rng.array(rng.int(0, 5), () => (rng.bool(0.1) ? { predictionType: rng.pick(OTHER_TYPES), locode } : prediction(rng, { now }, rng.bool(0.8) ? kind : kind === "eta" ? "etd" : "eta", rng.bool(0.9) ? locode : rng.pick(["SESTO", "FITKU"]), kind === "eta" ? rng.pick([-5, 3, 22, 23, 24, 25, 30, 60]) : rng.pick([-5, -1, 0, 0, 1, 24]))));
        if (rng.bool(0.6)) predictions.splice(rng.int(0, predictions.length), 0, { predictionType: "arrival-port-call", portCallId: "uuid", portCallUrn: `urn:awake:digitraffic-portcall:${9000 + k}`, portCallLocode: locode, ...(rng.bool(0.4) ? { metadata: { source: "urn:awake:x" } } : {}) });
        return { ship: { mmsi: rng.int(200000000, 799999999), imo: 9000000 + k, shipName: "x" }, voyage: { voyageStatus: rng.pick(["underway", "underway", "not-started", "stopped"]), sequenceNo: 0, predictions } };
      });
      // a departure without its time cannot be given
      if (kind === "etd") for (const s of schedule) for (const x of s.voyage.predictions) if (x.predictionType === "etd" && !x.departureTime) x.departureTime = iso(now + HOUR);
      if (kind === "eta") for (const s of schedule) for (const x of s.voyage.predictions) if (x.predictionType === "eta" && !x.arrivalTime) x.arrivalTime = iso(now + 40 * HOUR);
      const fault = rng.pick([undefined, undefined, undefined, undefined, 404, 422, 500, 400, "cut", "garbage"]);
      const wrong = [];
      w.serve = async (r) => {
        const a = o.answer(r);
        if (a) return a;
        const types = r.query.getAll("predictionType");
        if (r.method !== "GET" || r.path !== `/v2/port/${locode}/${kind === "eta" ? "arrivals" : "departures"}` || !types.includes(kind) || (kind === "eta" && !types.includes("arrival-port-call")) || r.query.get("predictionMetadata") !== "true") wrong.push(r.url);
        if (!o.good(r.headers.authorization)) return wrong.push("token"), { status: 401, body: "{}" };
        if (fault === "cut") return undefined;
        if (fault === "garbage") return { body: "[" };
        if (fault) return { status: fault, body: "{}" };
        return { body: schedule };
      };
      const { sent, error } = await e.run(listeners[0], sns(locode));
      const expected = [];
      if (!fault)
        for (const s of schedule) {
          if (!["underway", "not-started"].includes(s.voyage.voyageStatus)) continue;
          const call = s.voyage.predictions.find((x) => x.predictionType === "arrival-port-call");
          for (const x of s.voyage.predictions) {
            if (x.predictionType !== kind || !ours(x) || x.zoneType !== "berth" || !finnish(x.locode)) continue;
            const at = kind === "eta" ? x.arrivalTime : x.departureTime;
            if (kind === "eta" ? Date.parse(at) < now + 24 * HOUR : Date.parse(at) < now) continue;
            expected.push({ ship: { mmsi: s.ship.mmsi, imo: s.ship.imo }, location: { port: locode }, source: "Awake.AI Pred", eventTime: at, recordTime: x.recordTime ?? iso(now), ...(kind === "eta" && call ? { portcallId: Number(call.portCallUrn.split(":")[3]) } : {}), eventType: kind.toUpperCase(), ...confidence(x) });
          }
        }
      const witness = () => ({ kind, locode, fault, error: String(error?.stack ?? ""), schedule });
      ctx.expect(!wrong.length, `port:${kind}:request`, "a request to the predictions is not what it should be", () => ({ wrong: wrong.slice(0, 3) }));
      if (!["cut", "garbage"].includes(fault)) ctx.expect(!error, `port:${kind}:error`, "the predictions of a port were given up", witness);
      same(ctx, `port:${kind}`, "port predictions", sent, expected, witness);
      if (fault) ctx.observe("port:errors");
      ctx.observe(`port:${kind}`, sent.length);
      ctx.case(canon(sent), sent.length > 0);
    }
  }
}

// ---- observed arrivals and departures ----------------------------------------------------
async function atx(ctx, rng, w, e) {
  const o = oauth(ctx, rng, w, "/v2");
  w.serve = async (r) => o.answer(r) ?? { status: 404, body: "{}" };
  const fl = fleet(rng, 5);
  const locodes = ["FIHEL", "FIHKO", "FITKU"];
  const world = portcalls(rng, w, fl, locodes);
  const areas = world.calls.flatMap((c) => rng.array(rng.int(0, 2), () => ({ port_call_id: c.port_call_id, ata: rng.bool(0.7) ? w.now - rng.int(1, 3000) * MIN : rng.bool(0.5) ? w.now + 100 * MIN : null, atd: rng.bool(0.5) ? w.now - rng.int(1, 3000) * MIN : null, eta: w.now, etd: w.now })));
  w.sql.insert("port_area_details", areas.map((a, i) => ({ port_area_details_id: i + 1, ...a })));
  const params = new Map(rng.bool(0.5) ? [["AWAKE_ATX_SUBSCRIPTION_ID", rng.pick(["NONE", "s-old"])]] : []);
  globalThis.__ssm = {
    get: (i) => {
      if (!params.has(i.Name)) throw Object.assign(new Error("ParameterNotFound"), { name: "ParameterNotFound" });
      return { Parameter: { Name: i.Name, Value: params.get(i.Name) } };
    },
    put: (i) => {
      if (params.has(i.Name) && !i.Overwrite) throw Object.assign(new Error("ParameterAlreadyExists"), { name: "ParameterAlreadyExists" });
      params.set(i.Name, i.Value);
      return { Version: 1 };
    },
  };
  const sessions = new Set(rng.bool(0.6) ? ["s-old"] : []);
  let waiting = []; // events of a subscription not yet delivered
  let n = 0;
  let live; // the subscription the service should go on with
  for (let round = 0; round < 3; round++) {
    w.now += rng.int(1, 900) * 1000;
    const before = params.get("AWAKE_ATX_SUBSCRIPTION_ID");
    const events = rng.array(rng.int(0, 6), () => {
      const s = rng.pick(fl);
      return { msgType: "event", eventType: "zone-event", eventTimestamp: iso(w.now - rng.int(0, 2000) * MIN), eventId: `e${n++}`, mmsi: s.mmsi, imo: s.imo, shipName: s.name, location: [20, 60], zoneId: "z", zoneType: rng.bool(0.75) ? "berth" : rng.pick(["pbp", "vts", "anchorage"]), zoneEventType: rng.pick(["arrival", "departure"]), zoneName: "x", locodes: rng.pick([["FIHEL"], ["FIHKO"], ["FITKU"], ["FIHEL", "FIHKO"], []]) };
    });
    waiting.push(...events);
    const fault = rng.pick([undefined, undefined, undefined, undefined, "refused", "error", "token"]);
    o.fails = () => fault === "token";
    o.tokens.clear();
    const wrong = [];
    let delivered = [];
    let subscribed;
    globalThis.__ws = {
      connect: (ws) => {
        if (ws.url !== "wss://awake.example/atx" || !o.good(ws.options.headers?.Authorization)) wrong.push("connect " + ws.url + " " + JSON.stringify(ws.options));
        const open = () => {
          if (ws.readyState) return;
          if (fault === "error") {
            ws.readyState = 3;
            return ws.emit("error", new Error("Unexpected server response: 429"));
          }
          ws.readyState = 1;
          ws.emit("open");
        };
        setTimeout(open, 2);
        const say = (m) => ws.readyState === 1 && ws.emit("message", Buffer.from(JSON.stringify(m)));
        return {
          received: (text) => {
            const m = JSON.parse(text);
            if (m.msgType !== "subscribe" || subscribed) return wrong.push("subscribe " + text);
            subscribed = m.resume ?? "new";
            setTimeout(() => {
              if (m.resume && (!sessions.has(m.resume) || fault === "refused")) {
                sessions.delete(m.resume);
                return say({ msgType: "subscription-status", status: "failed", ...(rng.bool(0.5) ? { message: "no such subscription" } : {}) });
              }
              if (!m.resume && canon(m.parameters) !== canon([{ eventType: "zone-event", countries: ["FI"] }])) wrong.push("parameters " + text);
              const sid = m.resume ?? `s-${round}-${rng.digits(4)}`;
              sessions.add(sid);
              live = sid;
              say({ msgType: "subscription-status", status: "active", subscriptionId: sid });
              if (rng.bool(0.2)) say({ msgType: "hello" });
              delivered = waiting;
              waiting = [];
              for (const x of delivered) say(x);
            }, 2);
          },
        };
      },
    };
    const { sent, error } = await e.run("update-awake-ai-atx-timestamps", {}, { getRemainingTimeInMillis: () => 10_000 + 45 });
    void error;
    const after = params.get("AWAKE_ATX_SUBSCRIPTION_ID");
    const witness = () => ({ round, fault, before, after, subscribed, delivered: delivered.slice(0, 4), sent: sent.slice(0, 3) });
    ctx.expect(!wrong.length, "atx:request", "the subscription is not asked for as it should be", () => ({ wrong: wrong.slice(0, 3), ...witness() }));
    if (subscribed) {
      ctx.expect(subscribed === (before && before !== "NONE" ? before : "new"), "atx:resume", "the subscription of before is not resumed", witness);
      if (subscribed !== "new" && live === subscribed) ctx.observe("atx:resumed");
      if (delivered.length || sessions.has(after)) ctx.expect(after === live, "atx:kept", "the subscription is not remembered", witness);
      else if (subscribed !== "new" && !sessions.has(subscribed)) {
        ctx.observe("atx:refused");
        ctx.expect(!after || after === "NONE", "atx:forgotten", "a subscription that is refused is not forgotten", witness);
      }
    } else ctx.expect(after === before, "atx:untouched", "a run without connection changed the subscription", witness);
    const expected = [];
    for (const x of delivered) {
      if (x.zoneType !== "berth") continue;
      const col = x.zoneEventType === "arrival" ? "ata" : "atd";
      const calls = world.find(x, x.locodes[0]).flatMap((c) => areas.filter((a) => a.port_call_id === c.port_call_id && a[col] !== null && a[col] <= w.now).map((a) => [Math.abs(a[col] - Date.parse(x.eventTimestamp)), c.port_call_id]));
      if (!calls.length) continue;
      const best = Math.min(...calls.map(([d]) => d));
      const ids = calls.filter(([d]) => d === best).map(([, c]) => c);
      const mine = sent.find((s) => s.eventTime === x.eventTimestamp && s.ship?.imo === x.imo && ids.includes(s.portcallId));
      expected.push({ eventType: x.zoneEventType === "arrival" ? "ATA" : "ATD", eventTime: x.eventTimestamp, recordTime: x.eventTimestamp, source: "Awake.AI", ship: { imo: x.imo, mmsi: x.mmsi }, location: { port: x.locodes[0] }, portcallId: mine?.portcallId ?? ids[0] });
    }
    same(ctx, "atx", "observed arrivals and departures", sent, expected, witness);
    ctx.observe("atx:sent", sent.length);
    ctx.case(canon(sent), sent.length > 0);
  }
}

// ---- what is old -------------------------------------------------------------------------
async function cleanup(ctx, rng, w, e) {
  const WEEK = 7 * 24 * HOUR;
  const off = () => -WEEK + rng.pick([-1, 1, -1000, 1000, -3 * WEEK, 3 * WEEK, -HOUR, HOUR, WEEK, 0]);
  const stamps = rng.array(rng.int(1, 8), (i) => ({ id: i + 1, event_type: "ETA", event_time: w.now + off(), event_source: rng.pick(["Portnet", "Pilotweb"]), record_time: w.now + rng.pick([0, -4 * WEEK]), location_locode: "FIHEL", ship_mmsi: 1, ship_imo: 9000000 + i, portcall_id: i }));
  const pilots = rng.array(rng.int(0, 6), (i) => ({ id: i + 1, pilotage_end_time: rng.bool(0.1) ? null : w.now + off(), schedule_updated: w.now - 4 * WEEK, vessel_eta: w.now - 4 * WEEK, state: rng.pick(STATES) }));
  w.sql.insert("port_call_timestamp", stamps);
  w.sql.insert("pilotage", pilots);
  let hits = 0;
  let countdown = rng.bool(0.3) ? rng.int(0, 5) : -1;
  const faulty = countdown >= 0;
  if (faulty) w.sql.fail = (ses, sql) => (/^\s*(rollback|discard|show|set)/i.test(sql) || hits || countdown-- > 0 ? undefined : (hits++, { error: { message: "deadlock detected", code: "40P01" } }));
  const { error } = await e.run("delete-old-timestamps");
  w.sql.fail = () => undefined;
  const [a, b] = [w.sql.all("select id from port_call_timestamp order by id"), w.sql.all("select id from pilotage order by id")].map((r) => r.map((x) => x.id));
  const witness = () => ({ error: String(error ?? ""), now: w.now, stamps: stamps.map((s) => [s.id, s.event_time - w.now + WEEK]), pilots: pilots.map((s) => [s.id, s.pilotage_end_time && s.pilotage_end_time - w.now + WEEK]) });
  const old = (t) => t !== null && t < w.now - WEEK;
  if (hits) {
    ctx.expect(error, "cleanup:silent", "a cleanup that failed goes unnoticed", witness);
    ctx.equal([a, b], [stamps.map((s) => s.id), pilots.map((s) => s.id)], "cleanup:half", "a cleanup that failed was done in part", witness);
    return;
  }
  ctx.expect(!error, "cleanup:error", "the cleanup failed", witness);
  ctx.equal(a, stamps.filter((s) => !old(s.event_time)).map((s) => s.id), "cleanup:timestamps", "not the old timestamps are deleted", witness);
  ctx.equal(b, pilots.filter((s) => !old(s.pilotage_end_time)).map((s) => s.id), "cleanup:pilotages", "not the old pilotages are deleted", witness);
  ctx.observe("cleanup:deleted", stamps.length - a.length + pilots.length - b.length);
  ctx.case(canon([stamps, a]), a.length < stamps.length);
}

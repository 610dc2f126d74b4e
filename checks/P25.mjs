// Timestamps of port calls: what the queue's consumer stores, what the API and the public
// ship list show of it at any time, and what is cleaned away.
import vm from "node:vm";
import { repo } from "../harness/hooks.mjs";
import { World } from "../harness/world.mjs";
import { cdk } from "../harness/infra.mjs";
import { target } from "../harness/cfn.mjs";
import { renderRequest } from "../harness/apigw.mjs";
import { PORTACTIVITY_DDL, template } from "./P24.mjs";

const APP = "marine/portactivity";
const MIN = 60_000;
const H = 60 * MIN;
const EVENTS = ["ATA", "ATB", "ATD", "ETA", "ETB", "ETP", "ETD", "RPS", "PPS", "APS", "APC"];
const SHOWN = { Portnet: "PNET", "Awake.AI": "VTS A", SCHEDULES_CALCULATED: "VTS A", SCHEDULES_VTS_CONTROLLED: "VTS O", "Awake.AI Pred": "PRED" };
const PORTS = ["FIHKO", "FIHEL", "FIRAU"];

export default {
  id: "P25",
  rule: "A case is one history: ships and port calls, timestamps arriving over hours, queries in between; non-trivial when a timestamp was stored and shown.",
  assumptions: ["SQL is executed by SQLite after translation.", "Tables are those the statements use; those of other services are filled by the test.", "Scripts the ship list loads from elsewhere are stand-ins."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ intake: 3500, "dropped:validation": 250, "dropped:no-portcall": 600, "dropped:stationary": 70, "portcall-found": 140, "imo-found": 100, "mmsi-found": 250, "locode-changed": 60, duplicates: 70, "confidence-refused": 160, queries: 900, shown: 1300, averaged: 45, "vts-dropped": 180, "pred-dropped": 90, "pred-duplicate": 10, "superseded-hidden": 800, "outside-window": 700, refused: 100, pages: 140, "page-rows": 190, cleanings: 60, cleaned: 70, "reader-errors": 20 })) ctx.require(k, n);
    const cfn = await template(APP, "portactivity-stack", "PortActivityStack", { dlqBucketName: "pa-dlq", dlqNotificationDuration: cdk.Duration.minutes(10), dbClusterIdentifier: "cl", documentationBucketName: "doc", cloudfrontArn: "arn:aws:cloudfront::123456789012:distribution/X", awakeETD: true, enableETBForAllPorts: true, secretId: "app-secret" });
    const api = timestampsTemplate(cfn);
    const w = await new World(PORTACTIVITY_DDL, { readers: true }).open();
    w.secret({ "shiplist.auth": "letmein" });
    try {
      const mods = {
        intake: (await repo(`${APP}/src/lambda/process-queue/process-queue.ts`)).handler,
        get: (await repo(`${APP}/src/lambda/get-timestamps/get-timestamps.ts`)).handler,
        page: (await repo(`${APP}/src/lambda/get-shiplist-public/get-shiplist-public.ts`)).handler,
        clean: (await repo(`${APP}/src/lambda/delete-old-timestamps/delete-old-timestamps.ts`)).handler,
      };
      for (let i = 0; i < ctx.n(220, 3000); i++) await history(ctx, ctx.rng.fork(), w, mods, api, i);
    } finally {
      await w.close();
    }
  },
};

function timestampsTemplate(cfn) {
  for (const [, r] of cfn.of("AWS::ApiGateway::Method")) {
    const p = r.Properties;
    if (p.HttpMethod !== "GET") continue;
    const res = cfn.byId(target(p.ResourceId));
    const t = p.Integration?.RequestTemplates?.["application/json"];
    if (res?.Properties?.PathPart === "timestamps" && t && /locode/.test(t)) return t;
  }
  throw new Error("the API has no GET timestamps");
}
function imoOf(n) {
  const d = String(100000 + n).slice(0, 6);
  const sum = [...d].reduce((a, c, i) => a + Number(c) * (7 - i), 0);
  return Number(d + (sum % 10));
}

// ---- the surroundings -------------------------------------------------------------
function surroundings(rng, w) {
  const ships = rng.array(rng.int(2, 4), (i) => ({ i, imo: imoOf(rng.int(100000, 899999)), mmsi: 230000000 + rng.int(0, 899) * 1000 + i, name: rng.pick(["AURORA", "Bore Ä", "O'HARA", "</script><b>", "A&B \"Q\"", "$&"]) + i }));
  const state = { ships, vessels: [], calls: [], areas: [], locations: [] };
  for (const s of ships) {
    if (rng.bool(0.7)) {
      state.vessels.push({ mmsi: s.mmsi, imo: rng.bool(0.85) ? s.imo : null, timestamp: w.now - rng.int(1, 900) * MIN - s.i, name: rng.bool(0.8) ? s.name : null });
      if (rng.bool(0.3)) state.vessels.push({ mmsi: s.mmsi + 500, imo: s.imo, timestamp: w.now - rng.int(1000, 3000) * MIN - s.i, name: s.name + " OLD" });
    }
    const callName = rng.bool(0.8) ? "call " + s.name : null;
    for (let k = rng.int(0, 2); k > 0; k--) {
      const id = 1000 + s.i * 100 + k;
      const whole = rng.bool(0.75);
      state.calls.push({ port_call_id: id, port_call_timestamp: w.now - rng.int(1, 9000) * MIN - k, port_to_visit: rng.pick(PORTS), mmsi: whole || rng.bool() ? s.mmsi : null, imo_lloyds: s.i === 0 || whole ? s.imo : rng.bool() ? s.imo : null, vessel_name: callName });
      const c = state.calls.at(-1);
      if (c.mmsi === null && c.imo_lloyds === null) c.mmsi = s.mmsi;
      for (let a = rng.int(1, 2); a > 0; a--) {
        const t = () => (rng.bool(0.7) ? w.now + rng.int(-4000, 6000) * MIN + rng.int(0, 59) * 1000 : null);
        state.areas.push({ port_area_details_id: id * 10 + a, port_call_id: id, port_area_code: "A", eta: t(), etd: t(), ata: t(), atd: t() });
      }
    }
    if (rng.bool(0.8)) state.locations.push({ mmsi: s.mmsi, sog: rng.pick([0, 0.4, 1.9, 2, 2.1, 12]), nav_stat: rng.pick([0, 1, 5, 6, 8, 15, 2]), modified: w.now - rng.int(0, 90) * MIN - 7 });
  }
  const put = (t, rows) => rows.forEach((r) => w.sql.insert(t, r));
  put("vessel", state.vessels);
  put("port_call", state.calls);
  put("port_area_details", state.areas);
  put("vessel_location", state.locations);
  return state;
}
const newest = (rows, key, at) => rows.toSorted((a, b) => b[at] - a[at])[0]?.[key];
const given = (v) => v !== undefined && v !== null;

/** the number of the port call a timestamp belongs to */
function portCall(st, now, t) {
  const { mmsi, imo } = t.ship;
  const type = t.eventType === "ETB" && ["SCHEDULES_CALCULATED", "Awake.AI"].includes(t.source) ? "ETA" : t.eventType;
  const col = { ETA: "eta", ETD: "etd", ATA: "ata", ATD: "atd" }[type];
  if (!col) return undefined;
  const m = given(mmsi) ? mmsi : (newest(st.vessels.filter((v) => v.imo === imo), "mmsi", "timestamp") ?? newest(st.calls.filter((c) => c.imo_lloyds === imo), "mmsi", "port_call_timestamp"));
  const o = given(imo) ? imo : (newest(st.vessels.filter((v) => v.mmsi === mmsi), "imo", "timestamp") ?? newest(st.calls.filter((c) => c.mmsi === mmsi), "imo_lloyds", "port_call_timestamp"));
  const at = Date.parse(t.eventTime);
  const hits = [];
  for (const c of st.calls) {
    if (!((given(m) && c.mmsi === m) || (given(o) && c.imo_lloyds === o)) || c.port_to_visit !== t.location.port) continue;
    for (const a of st.areas.filter((x) => x.port_call_id === c.port_call_id)) {
      if (a[col] === null || (col[0] === "e" ? a[col] < now : a[col] > now)) continue;
      hits.push({ id: c.port_call_id, d: Math.abs(a[col] - at) });
    }
  }
  hits.sort((a, b) => a.d - b.d);
  if (hits.length > 1 && hits[0].d === hits[1].d && hits[0].id !== hits[1].id) return "tie";
  return hits[0]?.id;
}
function validIso(s) {
  return typeof s === "string" && /^\d{4}-\d\d-\d\d(T\d\d:\d\d(:\d\d(\.\d+)?)?(Z|[+-]\d\d:\d\d)?)?$/.test(s) && !Number.isNaN(Date.parse(s));
}
/** what becomes of one message: a reason to drop it, or the row */
function expectRow(st, now, t, rows) {
  const no = (why) => ({ drop: why });
  if (!EVENTS.includes(t.eventType) || !validIso(t.eventTime) || !validIso(t.recordTime) || !t.source || !t.ship || (!t.ship.mmsi && !t.ship.imo) || !t.location?.port) return no("validation");
  if (t.location.port.length > 5 || (t.location.from?.length ?? 0) > 5 || (t.location.portArea?.length ?? 0) > 6) return no("validation");
  if (t.source === "Awake.AI Pred" && t.eventType === "ETD") return no("validation");
  if (t.source === "SCHEDULES_CALCULATED" && ["ETA", "ETB"].includes(t.eventType)) {
    const l = st.locations.find((x) => x.mmsi === t.ship.mmsi && x.modified > now - H);
    if (l && ([1, 5, 6].includes(l.nav_stat) || l.sog < 2)) return no("stationary");
  }
  const found = given(t.portcallId) ? t.portcallId : portCall(st, now, t);
  if (found === "tie") return { unclear: true };
  const portcall = found ?? null;
  if (portcall === null && t.source !== "Awake.AI Pred") return no("no-portcall");
  const imo = given(t.ship.imo) ? t.ship.imo : (newest(st.vessels.filter((v) => v.mmsi === t.ship.mmsi), "imo", "timestamp") ?? newest(st.calls.filter((c) => c.mmsi === t.ship.mmsi), "imo_lloyds", "port_call_timestamp"));
  if (!given(imo)) return no("no-imo");
  const mmsi = t.ship.mmsi > 0 ? t.ship.mmsi : (newest(st.vessels.filter((v) => v.imo === imo && v.mmsi > 0), "mmsi", "timestamp") ?? newest(st.calls.filter((c) => c.imo_lloyds === imo && c.mmsi > 0), "mmsi", "port_call_timestamp") ?? null);
  const [lo, hi] = [t.eventTimeConfidenceLowerDiff, t.eventTimeConfidenceUpperDiff];
  const conf = typeof lo === "number" && typeof hi === "number" && lo && hi && lo <= 0 && hi >= 0;
  const row = { type: t.eventType, time: Date.parse(t.eventTime), source: t.source, record: Date.parse(t.recordTime), port: t.location.port, mmsi, imo, portcall, area: t.location.portArea ?? null, from: t.location.from ?? null, sourceId: t.sourceId ?? null, lower: conf ? Math.floor(lo) : null, upper: conf ? Math.ceil(hi) : null };
  const dup = portcall !== null && rows.some((r) => ["imo", "source", "port", "type", "time", "record", "portcall"].every((k) => r[k] === row[k]));
  return { row, dup, portcallFound: !given(t.portcallId) && portcall !== null, imoFound: !given(t.ship.imo), mmsiFound: !t.ship.mmsi && mmsi !== null, confRefused: (given(lo) || given(hi)) && !conf };
}
const stored = (w) => w.sql.all("select * from port_call_timestamp order by id").map((r) => ({ type: r.event_type, time: r.event_time, source: r.event_source, record: r.record_time, port: r.location_locode, mmsi: r.ship_mmsi, imo: r.ship_imo, portcall: r.portcall_id, area: r.location_portarea, from: r.location_from_locode, sourceId: r.source_id, lower: r.event_time_confidence_lower_diff, upper: r.event_time_confidence_upper_diff }));
const key = (r) => JSON.stringify(r);
const bag = (a) => a.map(key).sort();

function message(rng, w, st, seen) {
  if (seen.length && rng.bool(0.08)) return structuredClone(rng.pick(seen));
  const s = rng.pick(st.ships);
  const source = rng.pick(["Portnet", "Portnet", "Awake.AI", "Awake.AI", "Awake.AI Pred", "Port HKO", "SCHEDULES_VTS_CONTROLLED", "SCHEDULES_CALCULATED", "SCHEDULES_CALCULATED", "Pilotweb", "teqplay"]);
  const eventType = rng.bool(0.75) ? rng.pick(["ETA", "ETA", "ETD", "ATA", "ATD", "ETB"]) : rng.pick(EVENTS);
  const calls = st.calls.filter((c) => c.mmsi === s.mmsi || c.imo_lloyds === s.imo);
  const call = calls.length && rng.bool(0.8) ? rng.pick(calls) : undefined;
  const when = rng.bool(0.15) ? rng.pick([-12 * 60 - 3, -12 * 60 + 4, 14 * 1440 + 3, 14 * 1440 - 300, -7 * 1440, -6 * 60, -60]) + rng.int(-3, 3) : rng.int(-900, 3000);
  const iso = (ms) => rng.pick([(x) => new Date(x).toISOString(), (x) => new Date(x).toISOString().replace(".000Z", "Z"), (x) => new Date(x + 2 * H).toISOString().replace(".000Z", "+02:00")])(ms);
  // two calculations of the same arrival are close to each other more often than not
  const near = seen.filter((x) => given(x.portcallId) && call && x.portcallId === call.port_call_id && x.eventType === eventType && Date.parse(x.eventTime));
  const base = near.length && rng.bool(0.7) ? Date.parse(rng.pick(near).eventTime) + rng.int(-150, 150) * MIN : w.now + when * MIN + rng.int(0, 59) * 1000;
  const recordAge = source === "SCHEDULES_CALCULATED" ? rng.int(0, 30) : rng.int(0, 600);
  const t = {
    eventType,
    eventTime: iso(base),
    recordTime: iso(Math.floor(w.now / 1000) * 1000 - recordAge * MIN - rng.int(0, 59) * 1000),
    source,
    ...rng.maybe(() => ({ sourceId: "id" + rng.int(1, 99) }), 0.4),
    ship: s.i === 0 && rng.bool(0.3) ? { mmsi: 0, imo: s.imo } : rng.pick([{ mmsi: s.mmsi, imo: s.imo }, { mmsi: s.mmsi, imo: s.imo }, { mmsi: s.mmsi }, { imo: s.imo }, { mmsi: null, imo: s.imo }]),
    location: { port: source === "Portnet" && rng.bool(0.3) ? rng.pick(PORTS) : (call?.port_to_visit ?? rng.pick(PORTS)), ...rng.maybe(() => ({ portArea: rng.pick(["VUOS", "ABCDEF", null]) }), 0.4), ...rng.maybe(() => ({ from: rng.pick([...PORTS, null]) }), 0.3) },
  };
  // the same port call of the same ship only, and one port per source except Portnet
  if (call && rng.bool(source === "Portnet" || source === "Awake.AI" ? 0.9 : 0.6)) t.portcallId = call.port_call_id;
  if (rng.bool(0.35)) Object.assign(t, rng.pick([{ eventTimeConfidenceLowerDiff: -rng.int(1, 9000), eventTimeConfidenceUpperDiff: rng.int(1, 9000) }, { eventTimeConfidenceLowerDiff: -12.5, eventTimeConfidenceUpperDiff: 100.2 }, { eventTimeConfidenceLowerDiff: 50, eventTimeConfidenceUpperDiff: 100 }, { eventTimeConfidenceLowerDiff: -100, eventTimeConfidenceUpperDiff: -50 }, { eventTimeConfidenceLowerDiff: -100 }, { eventTimeConfidenceLowerDiff: "-100", eventTimeConfidenceUpperDiff: "100" }, { eventTimeConfidenceLowerDiff: 100, eventTimeConfidenceUpperDiff: -100 }, { eventTimeConfidenceLowerDiff: null, eventTimeConfidenceUpperDiff: 100 }]));
  if (rng.bool(0.13)) {
    const bad = rng.pick([{ eventType: "ETX" }, { eventType: undefined }, { eventType: "eta" }, { eventTime: undefined }, { eventTime: "12.5.2024" }, { eventTime: "2024-13-01T00:00:00Z" }, { recordTime: "" }, { recordTime: "yesterday" }, { source: "" }, { source: undefined }, { ship: undefined }, { ship: {} }, { ship: { mmsi: 0, imo: 0 } }, { location: undefined }, { location: {} }, { location: { port: "" } }, { location: { port: "FIHELS" } }, { location: { port: "FIHEL", from: "FIHELS" } }, { location: { port: "FIHEL", portArea: "ABCDEFG" } }, { source: "Awake.AI Pred", eventType: "ETD" }]);
    Object.assign(t, bad);
  }
  return t;
}

/** what several sources say of one event, and then say anew */
function arrival(rng, w, st) {
  if (!st.calls.length) return [];
  const c = rng.pick(st.calls);
  const s = st.ships.find((x) => x.mmsi === c.mmsi || x.imo === c.imo_lloyds);
  const eventType = rng.pick(["ETA", "ETA", "ETB", "ETD"]);
  const at = w.now + rng.int(10, 2000) * MIN + rng.int(0, 59) * 1000;
  const out = [];
  for (const source of rng.subset(["Awake.AI", "SCHEDULES_CALCULATED", "Awake.AI Pred", "Portnet", "SCHEDULES_VTS_CONTROLLED"], 0.65)) {
    if (source === "Awake.AI Pred" && eventType === "ETD") continue;
    const one = (back) => ({ eventType, eventTime: new Date(at + rng.int(-30, rng.bool(0.2) ? 100 : 28) * MIN).toISOString(), recordTime: new Date(Math.floor(w.now / 1000) * 1000 - (rng.int(0, 12) + back) * MIN - rng.int(0, 50) * 1000).toISOString(), source, ship: { mmsi: s.mmsi, imo: s.imo }, location: { port: source === "Portnet" && rng.bool(0.15) ? rng.pick(PORTS) : c.port_to_visit }, ...(source === "Awake.AI Pred" && rng.bool(0.4) ? {} : { portcallId: c.port_call_id }) });
    const first = one(15);
    out.push(first);
    if (rng.bool(0.5)) out.push(one(0));
    if (source === "Awake.AI Pred" && rng.bool(0.4)) out.push({ ...first, recordTime: new Date(Date.parse(first.recordTime) + rng.pick([0, 0, 60_000])).toISOString(), portcallId: first.portcallId ? undefined : c.port_call_id });
    // the same prediction for another port is no duplicate, and neither is one of another ship
    if (source === "Awake.AI Pred" && rng.bool(0.4)) {
      const { portcallId, ...bare } = first;
      out.push({ ...first, portcallId: c.port_call_id }, rng.bool(0.6) ? { ...bare, location: { port: rng.pick(PORTS) } } : { ...bare, ship: { mmsi: rng.pick(st.ships).mmsi, imo: rng.pick(st.ships).imo } });
    }
  }
  return rng.shuffle(out);
}

async function history(ctx, rng, w, mods, api, i) {
  w.reset();
  w.now = Date.UTC(2024, rng.int(0, 11), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59), 30);
  const st = surroundings(rng, w);
  let rows = [];
  const seen = [];
  let shown = 0;
  let n = 0;
  let unclear = false;
  for (let step = rng.int(3, 7); step > 0 && !unclear; step--) {
    w.now += rng.pick([1, 5, 5, 20, 20, 45, 70, 400, 1500]) * MIN;
    for (const l of st.locations)
      if (rng.bool(0.6)) {
        l.modified = w.now - rng.pick([1, 30, 58, 59, 61, 62, 300]) * MIN - 7;
        l.sog = rng.pick([0, 1.9, 2, 12]);
        w.sql.db.prepare("update vessel_location set modified = ?, sog = ? where mmsi = ?").run(l.modified, l.sog, l.mmsi);
      }
    const batch = rng.array(rng.int(1, 7), () => message(rng, w, st, seen));
    for (let k = rng.int(0, 2); k > 0; k--) batch.push(...arrival(rng, w, st));
    seen.push(...batch);
    await mods.intake({ Records: batch.map((b, k) => ({ messageId: `m${++n}`, body: JSON.stringify(b), receiptHandle: String(k), attributes: {}, messageAttributes: {} })) });
    for (const t of batch) {
      ctx.observe("intake");
      const e = expectRow(st, w.now, t, rows);
      if (e.unclear) {
        unclear = true;
        break;
      }
      if (e.drop) {
        ctx.observe(`dropped:${e.drop}`);
        continue;
      }
      for (const [f, o] of [["portcallFound", "portcall-found"], ["imoFound", "imo-found"], ["mmsiFound", "mmsi-found"], ["confRefused", "confidence-refused"], ["dup", "duplicates"]]) if (e[f]) ctx.observe(o);
      if (e.row.source === "Portnet" && e.row.portcall !== null) {
        const keep = rows.filter((r) => !(r.source === "Portnet" && r.portcall === e.row.portcall && r.port !== e.row.port));
        if (keep.length < rows.length) ctx.observe("locode-changed");
        rows = keep;
      }
      if (!e.dup) rows = [...rows, e.row];
    }
    if (unclear) break;
    const is = stored(w);
    ctx.equal(bag(is), bag(rows), "stored", "what is stored after the messages differs", () => ({ now: new Date(w.now).toISOString(), batch, extra: is.filter((r) => !rows.some((x) => key(x) === key(r))), missing: rows.filter((r) => !is.some((x) => key(x) === key(r))), calls: st.calls, areas: st.areas, vessels: st.vessels }));
    for (let k = rng.int(1, 4); k > 0; k--) {
      if (rng.bool(0.3)) w.now += rng.int(1, 90) * MIN;
      shown += await query(ctx, rng, w, mods, api, st, rows);
    }
    if (rng.bool(0.4)) await page(ctx, rng, w, mods, st, rows);
    if (rng.bool(0.15)) {
      w.now += rng.pick([1, 3000, 9000]) * MIN;
      const old = rng.array(3, (k) => ({ id: 90 + k, pilotage_end_time: rng.bool(0.8) ? w.now - rng.pick([6.9, 7.1, 1, 30]) * 24 * H : null, state: "FINISHED" }));
      w.sql.db.exec("delete from pilotage");
      old.forEach((r) => w.sql.insert("pilotage", r));
      await mods.clean({});
      const keep = rows.filter((r) => r.time >= w.now - 7 * 24 * H);
      ctx.observe("cleanings");
      ctx.observe("cleaned", rows.length - keep.length);
      rows = keep;
      ctx.equal(bag(stored(w)), bag(rows), "cleaned", "what is left after the cleaning differs", { now: new Date(w.now).toISOString() });
      ctx.equal(w.sql.all("select id from pilotage order by id").map((r) => r.id), old.filter((r) => r.pilotage_end_time === null || r.pilotage_end_time >= w.now - 7 * 24 * H).map((r) => r.id), "cleaned-pilotages", "what is left of the pilotages after the cleaning differs", { old });
    }
  }
  if (w.sql.unsupported.length) throw new Error("unsupported SQL " + JSON.stringify(w.sql.unsupported[0]));
  ctx.case({ i, n, rows: rows.length }, shown > 0, { messages: n, rows: rows.length, shown });
}

// ---- what is shown ----------------------------------------------------------------
const newestRecord = (rows, r) => !rows.some((x) => x.type === r.type && x.port === r.port && x.imo === r.imo && x.source === r.source && (x.portcall === null || r.portcall === null || x.portcall === r.portcall) && x.record > r.record);
/** calculations of the same event combined; undefined when the rules leave it open */
function combine(ctx, now, list) {
  const out = [];
  const kept = list.filter((t) => !(t.portcall === null && t.source === "Awake.AI Pred" && list.some((o) => o.source === t.source && o.imo === t.imo && o.port === t.port && o.type === t.type && o.time === t.time && o.portcall !== null)));
  if (kept.length < list.length) ctx.observe("pred-duplicate");
  for (const g of Map.groupBy(kept, (t) => `${t.portcall}${t.type}`).values()) {
    let vts = g.filter((t) => ["Awake.AI", "SCHEDULES_CALCULATED"].includes(t.source));
    let rest = g.filter((t) => !vts.includes(t));
    const calc = vts.filter((t) => t.source === "SCHEDULES_CALCULATED");
    const awake = vts.filter((t) => t.source === "Awake.AI");
    if (calc.length > 1 || (calc.length && awake.length > 1) || awake.length > 1) return undefined;
    if (calc.length) {
      const age = now - calc[0].record;
      const diff = awake.length ? calc[0].time - awake[0].time : 0;
      if (Math.abs(age - 59.5 * MIN) <= 0.5 * MIN || diff <= -59 * MIN || Math.abs(diff - 59.5 * MIN) <= 0.5 * MIN) return undefined;
      if (age >= 60 * MIN || diff >= 60 * MIN) {
        vts = awake;
        ctx.observe("vts-dropped");
      }
    }
    if (vts.length && rest.some((t) => t.source === "Awake.AI Pred")) {
      ctx.observe("pred-dropped");
      rest = rest.filter((t) => t.source !== "Awake.AI Pred");
    }
    if (vts.length === 2) {
      ctx.observe("averaged");
      vts = [{ ...calc[0], time: Math.trunc((calc[0].time + awake[0].time) / 2) }];
    }
    out.push(...rest, ...vts);
  }
  return out;
}
async function query(ctx, rng, w, mods, api, st, rows) {
  const s = rng.pick(st.ships);
  const q = {};
  const roll = rng.int(0, 9);
  if (roll < 4) q.locode = rng.pick([...PORTS, "fihko", "FITKU"]);
  else if (roll < 6) q.mmsi = String(rng.pick([s.mmsi, s.mmsi, 999999998]));
  else if (roll < 8) q.imo = String(rng.pick([s.imo, s.imo, imoOf(123456)]));
  else if (roll < 9) q.source = rng.pick(["Portnet", "Awake.AI", "SCHEDULES_CALCULATED", "Pilotweb", "PNET", "x' or 1=1"]);
  else {
    Object.assign(q, rng.pick([{}, { locode: "SEGOT" }, { locode: "FIHKOX" }, { locode: "FI1" }, { mmsi: "1" }, { mmsi: "1234567890" }, { mmsi: "abc" }, { imo: "12" }, { imo: "1234568" }, { imo: "10000000" }, { locode: "FIHKO", mmsi: "12" }, { locode: "FIHKO", imo: "77" }]));
    const r = JSON.parse(JSON.stringify(await mods.get(JSON.parse(renderRequest(api, { query: q })))));
    ctx.observe("refused");
    ctx.equal(r.status, 400, "refused", "a request that names nothing valid is not refused", { q, r });
    return 0;
  }
  if (q.mmsi && rng.bool(0.3)) q.imo = String(s.imo);
  if (rng.bool(0.03)) {
    w.sql.fail = (_, sql) => (/from port_call_timestamp/i.test(sql) ? { error: { message: "boom", code: "57014" } } : undefined);
    const r = JSON.parse(JSON.stringify(await mods.get(JSON.parse(renderRequest(api, { query: q })))));
    w.sql.fail = () => undefined;
    ctx.observe("reader-errors");
    ctx.equal(r.status, 500, "read-failure", "a failing database is not reported as such", { q, r });
    return 0;
  }
  const r = JSON.parse(JSON.stringify(await mods.get(JSON.parse(renderRequest(api, { query: q })))));
  const wit = () => ({ q, now: new Date(w.now).toISOString(), rows });
  ctx.equal(r.status, 200, "query-status", "a valid query fails", wit);
  const list = JSON.parse(Buffer.from(r.body, "base64").toString("utf8"));
  const now = w.now;
  const port = q.locode?.toUpperCase();
  const mine = rows.filter((x) => (port ? x.port === port || (x.from === port && x.source === "Pilotweb") : q.imo ? x.imo === Number(q.imo) : q.mmsi ? x.mmsi === Number(q.mmsi) : x.source === q.source));
  const inWindow = mine.filter((x) => x.time > now - 12 * H && (x.source !== "Portnet" || x.time < now + 14 * 24 * H));
  const current = inWindow.filter((x) => newestRecord(rows, x));
  ctx.observe("outside-window", mine.length - inWindow.length);
  ctx.observe("superseded-hidden", inWindow.length - current.length);
  const distinct = [...new Map(current.map((x) => [key(x), x])).values()];
  const exp = combine(ctx, now, distinct);
  ctx.observe("queries");
  for (let k = 1; k < list.length; k++) ctx.expect(Date.parse(list[k - 1].eventTime) <= Date.parse(list[k].eventTime), "order", "timestamps are not in the order of their times", wit);
  if (!exp) {
    ctx.observe("open");
    return 0;
  }
  const plain = (x) => JSON.stringify(Object.fromEntries(Object.entries(x).filter(([, v]) => v !== null && v !== undefined).sort(([a], [b]) => (a < b ? -1 : 1))));
  const is = list.map((x) => plain({ type: x.eventType, time: x.eventTime, record: x.recordTime, source: x.source, sourceId: x.sourceId, mmsi: x.ship?.mmsi, imo: x.ship?.imo, port: x.location?.port, area: x.location?.portArea, from: x.location?.from, portcall: x.portcallId, lower: x.eventTimeConfidenceLowerDiff, upper: x.eventTimeConfidenceUpperDiff }));
  const wanted = exp.map((x) => plain({ ...x, time: new Date(x.time).toISOString(), record: new Date(x.record).toISOString(), source: SHOWN[x.source] ?? x.source }));
  ctx.observe("shown", is.length);
  ctx.equal(is.sort(), wanted.sort(), "shown", "what is shown of the stored timestamps differs", wit);
  return is.length;
}

// ---- the public page --------------------------------------------------------------
function browse(html) {
  // scripts as a browser sees them: an element ends at the first end tag
  const tables = {};
  let text = html;
  const stubs = {
    $: (sel) => ({ bootstrapTable: (o) => ((tables[sel] = o.data), { removeClass: () => undefined }) }),
    R: { compose: (...f) => (x) => f.reduceRight((a, g) => g(a), x), sortBy: (f) => (l) => [...l].sort((a, b) => (f(a) < f(b) ? -1 : f(a) > f(b) ? 1 : 0)), prop: (p) => (x) => x[p], map: (f, l) => (l ? l.map(f) : (m) => m.map(f)), toPairs: Object.entries, groupBy: (f) => (l) => l.reduce((o, x) => ((o[f(x)] ??= []).push(x), o), {}) },
    moment: () => ({}),
  };
  const c = vm.createContext(stubs);
  let count = 0;
  for (;;) {
    const m = /<script([^>]*)>/i.exec(text);
    if (!m) break;
    text = text.slice(m.index + m[0].length);
    const e = text.search(/<\/script/i);
    const body = e < 0 ? text : text.slice(0, e);
    text = e < 0 ? "" : text.slice(e + 8);
    if (/\bsrc=/.test(m[1])) continue;
    count++;
    vm.runInContext(body, c, { timeout: 2000 });
  }
  return { tables: JSON.parse(JSON.stringify(tables)), count };
}
async function page(ctx, rng, w, mods, st, rows) {
  const q = { auth: "letmein", locode: rng.pick([...PORTS, "fihel"]), ...rng.maybe(() => ({ interval: String(rng.pick([1, 4, 24, 48, 200])) }), 0.5) };
  const roll = rng.int(0, 9);
  if (roll === 0) {
    const [bad, status] = rng.pick([[{ ...q, auth: "x" }, 403], [{ locode: q.locode }, 401], [{ auth: "letmein" }, 400], [{ ...q, locode: "SEGOT" }, 400], [null, 401], [{ ...q, auth: "" }, 401]]);
    const r = await mods.page({ queryStringParameters: bad });
    ctx.observe("refused");
    ctx.equal(r.statusCode, status, "page-refused", "a request for the ship list is answered with the wrong status", { bad, body: String(r.body).slice(0, 80) });
    return;
  }
  const r = await mods.page({ queryStringParameters: q });
  const now = w.now;
  const wit = () => ({ q, now: new Date(now).toISOString(), rows, vessels: st.vessels, calls: st.calls });
  ctx.equal(r.statusCode, 200, "page-status", "the ship list cannot be shown", wit);
  ctx.expect(/text\/html/.test(Object.entries(r.headers ?? {}).find(([k]) => k.toLowerCase() === "content-type")?.[1] ?? ""), "page-type", "the ship list is not HTML", { headers: r.headers });
  let seen;
  try {
    seen = browse(r.body);
  } catch (e) {
    ctx.violation("page-script", "the script of the ship list does not run with these ships", { error: String(e), ships: st.ships.map((s) => s.name) });
    return;
  }
  ctx.observe("pages");
  const port = q.locode.toUpperCase();
  const hours = Number(q.interval ?? 96);
  const mine = rows.filter((x) => x.port === port || (x.from === port && x.source === "Pilotweb")).filter((x) => x.time > now - (["ATA", "ATD"].includes(x.type) ? 6 : 1) * H && x.time < now + hours * H && !(x.type === "ETA" && x.portcall !== null && rows.some((o) => o.portcall === x.portcall && o.type === "ATA")) && newestRecord(rows, x));
  const name = (imo) => newest(st.vessels.filter((v) => v.imo === imo), "name", "timestamp") ?? st.calls.find((c) => c.imo_lloyds === imo && c.vessel_name)?.vessel_name.replace(/[a-zäåö]/g, (c) => c.toUpperCase()) ?? "Unknown";
  const distinct = [...new Map(mine.map((x) => ({ type: x.type, time: x.time, source: x.source, record: x.record, portcall: x.portcall, imo: x.imo, port })).map((x) => [key(x), x])).values()];
  const exp = combine(ctx, now, distinct);
  if (!exp) return;
  const f = (type, time, source, record, portcall, imo, nm) => JSON.stringify([type, time, source, record, portcall, imo, nm]);
  const wanted = exp.map((x) => f(x.type, new Date(x.time).toISOString(), SHOWN[x.source] ?? x.source, new Date(x.record).toISOString(), x.portcall, x.imo, name(x.imo))).sort();
  const list = seen.tables["#aikalista-table"] ?? [];
  const is = list.map((x) => f(x.event_type, x.eventTime, x.source, x.record_time, x.portcall_id, x.ship_imo, x.ship_name)).sort();
  ctx.observe("page-rows", is.length);
  ctx.equal(is, wanted, "page", "the ship list shows something else", wit);
  const byShip = seen.tables["#aluslista-table"] ?? [];
  ctx.equal(byShip.flatMap((s) => s.timestamps.map((x) => f(x.event_type, x.eventTime, x.source, x.record_time, x.portcall_id, x.ship_imo, s.name))).sort(), is, "page-by-ship", "the ship list by ship shows something else than by time", wit);
}

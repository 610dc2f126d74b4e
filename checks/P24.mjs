// Messages put on the queues of the port activity and maintenance tracking services, from
// the API to the database or the dead letter bucket. The queues are simulated from the
// synthesized template, the consumers are the handlers the template names.
import fs from "node:fs";
import path from "node:path";
import { createHash } from "node:crypto";
import { REPO, repo } from "../harness/hooks.mjs";
import { World } from "../harness/world.mjs";
import { inScratch, makeLambdaAsset, newApp, baseConfig, cdk, synth } from "../harness/infra.mjs";
import { text } from "../harness/cfn.mjs";
import { Queues, readQueues, url } from "../harness/queues.mjs";
import { renderRequest } from "../harness/apigw.mjs";

const INT = (c) => `${c} INTEGER check(${c} is null or typeof(${c}) = 'integer')`;
const TS = (c, more = "") => `${c} TIMESTAMPTZ ${more} check(${c} is null or typeof(${c}) = 'integer')`;
const STR = (c, n, more = "") => `${c} TEXT ${more} check(${c} is null or length(${c}) <= ${n})`;
export const PORTACTIVITY_DDL = `
create table port_call_timestamp(id INTEGER primary key autoincrement, ${STR("event_type", 3, "not null")} check(event_type in ('ATA','ATB','ATD','ETA','ETB','ETP','ETD','RPS','PPS','APS','APC')), ${TS("event_time", "not null")}, event_time_confidence_lower TEXT, ${INT("event_time_confidence_lower_diff")}, event_time_confidence_upper TEXT, ${INT("event_time_confidence_upper_diff")}, ${STR("event_source", 100, "not null")}, ${TS("record_time", "not null")}, ${STR("location_locode", 5, "not null")}, ${INT("ship_mmsi")}, ${INT("ship_imo")} check(ship_imo is not null), ${INT("portcall_id")}, ${STR("location_portarea", 6)}, ${STR("location_from_locode", 5)}, source_id TEXT, unique(ship_imo, event_source, location_locode, event_type, event_time, record_time, portcall_id), check(portcall_id is not null or event_source = 'Awake.AI Pred'));
create table pilotage(id INTEGER primary key, ${INT("vessel_imo")}, ${INT("vessel_mmsi")}, ${TS("vessel_eta")}, ${TS("pilot_boarding_time")}, ${TS("pilotage_end_time")}, ${TS("schedule_updated")}, schedule_source TEXT, ${STR("state", 30)}, vessel_name TEXT, start_code TEXT, start_berth TEXT, end_code TEXT, end_berth TEXT);
create table port_call(port_call_id INTEGER primary key, ${TS("port_call_timestamp")}, port_to_visit TEXT, mmsi INTEGER, imo_lloyds INTEGER, vessel_name TEXT, radio_call_sign TEXT);
create table port_area_details(port_area_details_id INTEGER primary key, port_call_id INTEGER, port_area_code TEXT, ${TS("eta")}, ${TS("etd")}, ${TS("ata")}, ${TS("atd")});
create table vessel(mmsi INTEGER primary key, ${TS("timestamp")}, name TEXT, ship_type INTEGER, imo INTEGER, call_sign TEXT);
create table vessel_location(mmsi INTEGER primary key, sog NUMERIC, nav_stat INTEGER, ${TS("modified")});
`;
const TRACKING_DDL = `
create table maintenance_tracking_observation_data(id INTEGER primary key, ${TS("observation_time", "not null")}, ${TS("sending_time", "not null")}, json TEXT not null check(json_valid(json)), ${INT("harja_workmachine_id")} check(harja_workmachine_id is not null), ${INT("harja_contract_id")} check(harja_contract_id is not null), sending_system TEXT not null, status TEXT not null check(status in ('UNHANDLED','HANDLED','ERROR')), hash TEXT not null unique, s3_uri TEXT);
`;

export default {
  id: "P24",
  rule: "A case is one history of a service's queues: messages of every kind are accepted, delivered in random batches with injected faults and redeliveries, until every queue is empty; non-trivial when a message was delivered.",
  assumptions: ["Queue, redrive and batch semantics are modelled after the platform's documentation.", "SQL is executed by SQLite after translation.", "Time advances between deliveries."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ deliveries: 500, stored: 400, "dead-letters": 60, "failed-deliveries": 80, "poison-messages": 60, "transient-faults": 60, "large-bodies": 8, "refused-requests": 30, "duplicate-deliveries": 40, "mixed-batches": 40 })) ctx.require(k, n);
    await portactivity(ctx);
    await tracking(ctx);
  },
};

export async function template(app, file, cls, cfg) {
  return inScratch(async () => {
    makeLambdaAsset(...fs.readdirSync(path.join(REPO, app, "src/lambda")));
    const m = await repo(`${app}/src/${file}.ts`);
    const a = newApp({ "aws:cdk:enable-asset-metadata": true });
    return synth(a, new m[cls](a, "S", baseConfig(cfg)));
  });
}

/** what the platform demands of a queue and its consumer */
function wiring(ctx, conf, app) {
  for (const m of conf.mappings) {
    const q = conf.queues[m.queue];
    const f = conf.functions[m.fn];
    if (!q || !f) continue;
    ctx.expect(f.rel, `wiring:${app}:handler`, "the consumer's handler does not exist in the sources", { name: f.name, wanted: f.wanted });
    ctx.expect(q.visibility >= f.timeout, `wiring:${app}:visibility`, "messages become visible again while their consumer is still working", { queue: q.name, visibility: q.visibility, timeout: f.timeout });
    ctx.expect(q.dlq || Object.values(conf.queues).some((x) => x.dlq === q.id), `wiring:${app}:redrive`, "failing messages of the queue are never put aside", { queue: q.name });
    if (q.dlq) ctx.expect(conf.mappings.some((x) => x.queue === q.dlq && x.enabled), `wiring:${app}:dlq-consumer`, "nobody collects what the queue gave up", { queue: q.name });
    if (q.dlq) ctx.expect(q.maxReceive >= 2, `wiring:${app}:retries`, "a message is put aside after its first failure", { queue: q.name, max: q.maxReceive });
  }
}

/** S3 as far as uploads go */
function bucket(w) {
  const s = { objects: new Map(), fail: () => false, overwritten: [] };
  w.aws = async (r) => {
    if (r.method === "PUT" && !r.target) {
      const [, b, ...k] = r.path.split("/");
      if (s.fail()) return { status: 500, body: "<Error><Code>InternalError</Code></Error>" };
      const key = `${b}/${k.join("/")}`;
      let body = r.body;
      if (/aws-chunked/.test(r.headers["content-encoding"] ?? "")) body = unchunk(body);
      if (s.objects.has(key)) s.overwritten.push({ key, was: s.objects.get(key) });
      s.objects.set(key, body.toString("utf8"));
      return { headers: { etag: '"x"' } };
    }
    return { status: 501 };
  };
  return s;
}
function unchunk(b) {
  const parts = [];
  for (let i = 0; i < b.length; ) {
    const e = b.indexOf("\r\n", i);
    const n = Number.parseInt(b.subarray(i, e).toString().split(";")[0], 16);
    if (!n) break;
    parts.push(b.subarray(e + 2, e + 2 + n));
    i = e + 2 + n + 2;
  }
  return Buffer.concat(parts);
}

/** faults of the surroundings, each attributed to the message or delivery it hit */
function faults(rng, w, secrets) {
  const f = { rate: 0, hits: 0, total: 0 };
  w.sql.fail = (ses, sql) => {
    if (!f.rate || /^\s*(rollback|discard|show|set)/i.test(sql) || !rng.bool(f.rate)) return undefined;
    f.hits++;
    f.total++;
    return rng.bool(0.2) ? { destroy: true } : { error: { message: "deadlock detected", code: "40P01" } };
  };
  w.secretFault = () => f.secretRate && rng.bool(f.secretRate);
  void secrets;
  return f;
}

// ---- port activity ----------------------------------------------------------------
const EVENTS = ["ATA", "ATB", "ATD", "ETA", "ETB", "ETP", "ETD", "RPS", "PPS", "APS", "APC"];
const SOURCES = ["Portnet", "Awake.AI", "Port HKO", "SCHEDULES_VTS_CONTROLLED", "Pilotweb", "teqplay"];
function goodTimestamp(rng, w, n) {
  return {
    eventType: rng.pick(EVENTS),
    eventTime: new Date(w.now + rng.int(-1000, 5000) * 60_000).toISOString().replace(".000", ""),
    recordTime: new Date(w.now - rng.int(0, 5000) * 1000).toISOString(),
    source: rng.pick(SOURCES),
    ...rng.maybe(() => ({ sourceId: "s" + n + rng.pick(["", " ' \u00e4 ", "$&", "\\"]) }), 0.5),
    ship: { mmsi: rng.int(200000000, 799999999), imo: 9000000 + n },
    location: { port: rng.pick(["FIHKO", "FIHEL", "FIRAU"]), ...rng.maybe(() => ({ portArea: rng.pick(["VUOS", "A", "SATAMA"]) }), 0.4), ...rng.maybe(() => ({ from: "FITKU" }), 0.3) },
    portcallId: 100000 + n,
    ...rng.maybe(() => ({ eventTimeConfidenceLowerDiff: -rng.int(1, 900), eventTimeConfidenceUpperDiff: rng.int(1, 900) }), 0.3),
  };
}
async function portactivity(ctx) {
  const app = "marine/portactivity";
  const cfn = await template(app, "portactivity-stack", "PortActivityStack", { dlqBucketName: "pa-dlq", dlqNotificationDuration: cdk.Duration.minutes(10), dbClusterIdentifier: "cl", documentationBucketName: "doc", cloudfrontArn: "arn:aws:cloudfront::123456789012:distribution/X", awakeETD: true, enableETBForAllPorts: true, secretId: "app-secret" });
  const conf = readQueues(cfn, app);
  wiring(ctx, conf, "port-activity");
  const main = Object.values(conf.queues).find((q) => q.dlq);
  const { intake, required } = queueApi(cfn, conf);
  ctx.expect(intake, "intake", "the API does not put requests on the queue", {});
  void required;
  const w = await new World(PORTACTIVITY_DDL, { readers: true }).open();
  try {
    for (let i = 0; i < ctx.n(80, 900); i++) {
      const rng = ctx.rng.fork();
      w.reset();
      const s3 = bucket(w);
      const f = faults(rng, w);
      const modules = conf.functions;
      const q = new Queues({ ...conf, functions: structuredClone2(modules) }, { rng, tick: () => (w.now += rng.int(1, 5000)) });
      q.baseEnv = awsEnv();
      secretFaults(w, rng, f);
      const expected = new Map();
      const rounds = rng.int(2, 4);
      let n = 0;
      for (let r = 0; r < rounds; r++) {
        f.rate = rng.pick([0, 0, 0, 0.03, 0.12]);
        f.secretRate = rng.pick([0, 0, 0, 0.4]);
        s3.fail = () => rng.bool(s3.rate ?? 0);
        s3.rate = rng.pick([0, 0, 0.5]);
        for (let k = rng.int(1, 14); k > 0; k--) {
          const t = goodTimestamp(rng, w, ++n);
          const roll = rng.int(0, 9);
          let body = JSON.stringify(t);
          let kind = "stored";
          if (roll === 0) [body, kind] = [rng.pick(["{", "not json", `${body},`, "\u0000"]), "dead"];
          else if (roll === 1) [body, kind] = [rng.pick(["null", JSON.stringify({ ...t, ship: { ...t.ship, imo: "a" + n } }), JSON.stringify({ ...t, ship: { imo: 9e12 + 0.5 } }), JSON.stringify({ ...t, eventTime: 5 }), JSON.stringify({ ...t, source: "x".repeat(101) })]), "dead"];
          else if (roll === 2) {
            const bad = rng.pick([{ eventType: "XXX" }, { eventTime: "tomorrow" }, { recordTime: undefined }, { source: undefined }, { ship: {} }, { location: { port: "TOOLONG" } }, { portcallId: undefined, ship: { imo: 1 } }]);
            [body, kind] = [JSON.stringify({ ...t, ...bad }), "dropped"];
          } else if (rng.bool(0.15)) body = JSON.stringify(t, null, 2);
          // identical bodies would make the oracle ambiguous
          if (kind === "dead" && !body.includes(String(n))) body = body + " ".repeat(n);
          let m;
          if (intake && rng.bool(0.4)) {
            const form = new URLSearchParams(renderRequest(intake.template, { body }));
            ctx.expect(form.get("Action") === "SendMessage", "intake-action", "the API does not send the request to the queue", { form: [...form] });
            m = q.put(main.id, form.get("MessageBody"));
            ctx.expect(m.body === body, "intake-body", "what the API put on the queue differs from the request", { body, queued: m.body });
            ctx.observe("through-the-api");
          } else m = q.put(main.id, body);
          expected.set(m, { kind, t, body });
        }
        await run(ctx, rng, q, f, w);
      }
      f.rate = 0;
      f.secretRate = 0;
      s3.rate = 0;
      const done = await q.drain({ limit: 3000 });
      ctx.expect(done, "pa:not-drained", "messages go round in the queues for ever", { left: q.messages.filter((m) => m.state === "queued").length });
      // ---- oracle
      const rows = w.sql.all("select * from port_call_timestamp");
      const byImo = Map.groupBy(rows, (r) => r.ship_imo);
      const dead = [...s3.objects].map(([k, b]) => ({ k, b }));
      for (const o of s3.overwritten) ctx.violation("pa:overwritten", "a dead letter was overwritten by another", o);
      for (const [m, x] of expected) {
        const row = byImo.get(x.t.ship.imo) ?? [];
        const letters = dead.filter((d) => d.b === x.body);
        for (const l of letters) ctx.expect(l.k.startsWith("pa-dlq/"), "pa:dlq-bucket", "a dead letter is in the wrong bucket", l);
        const about = { kind: x.kind, body: x.body, receives: m.total, faults: m.faults, rows: row.length, letters: letters.length };
        if (x.kind === "dead") {
          ctx.observe("poison-messages");
          ctx.expect(letters.length >= 1, "pa:poison-lost", "a message that cannot be handled disappeared", about);
          ctx.expect(row.length === 0, "pa:poison-stored", "a message that cannot be handled was stored", about);
        } else if (x.kind === "dropped") {
          ctx.expect(row.length === 0, "pa:invalid-stored", "an invalid timestamp was stored", about);
          if (!m.faults && !m.again) ctx.expect(!letters.length && m.total === 1, "pa:invalid-kept", "an invalid timestamp is not taken off the queue", about);
        } else {
          ctx.expect(row.length + letters.length >= 1, "pa:lost", "an accepted timestamp is neither stored nor kept as a dead letter", about);
          ctx.expect(row.length <= 1, "pa:twice", "a timestamp was stored more than once", about);
          if (!m.faults && !m.again) ctx.expect(row.length === 1 && m.total === 1 && !letters.length, "pa:dragged", "a sound timestamp had to be delivered again though only others failed", { ...about, batch: m.last?.ids.length });
          if (m.faults < main.maxReceive) ctx.expect(row.length === 1, "pa:retry", "a timestamp was given up though an attempt without any failure was left", about);
          if (row.length) {
            ctx.observe("stored");
            const r = row[0];
            const c = x.t.eventTimeConfidenceLowerDiff !== undefined;
            ctx.equal([r.event_type, r.event_time, r.event_source, r.record_time, r.location_locode, r.ship_mmsi, r.portcall_id, r.location_portarea, r.location_from_locode, r.source_id, r.event_time_confidence_lower_diff, r.event_time_confidence_upper_diff], [x.t.eventType, Date.parse(x.t.eventTime), x.t.source, Date.parse(x.t.recordTime), x.t.location.port, x.t.ship.mmsi, x.t.portcallId, x.t.location.portArea ?? null, x.t.location.from ?? null, x.t.sourceId ?? null, c ? x.t.eventTimeConfidenceLowerDiff : null, c ? x.t.eventTimeConfidenceUpperDiff : null], "pa:content", "a stored timestamp differs from the message", about);
          }
        }
      }
      ctx.observe("dead-letters", dead.length);
      for (const d of dead) ctx.expect([...expected.values()].some((x) => x.body === d.b), "pa:dlq-content", "a dead letter does not have the content of the message", d);
      modulesBack(q, modules);
      ctx.case({ i, app, n, inv: q.invocations.length }, q.invocations.length > 0, { messages: n, deliveries: q.invocations.length, stored: rows.length, dead: dead.length });
      if (w.sql.unsupported.length) throw new Error("unsupported SQL " + JSON.stringify(w.sql.unsupported[0]));
    }
  } finally {
    await w.close();
  }
}
const awsEnv = () => Object.fromEntries(Object.entries(process.env).filter(([k]) => k.startsWith("AWS_")));
/** function descriptions share their loaded module between histories (warm containers) or not */
const structuredClone2 = (fs) => Object.fromEntries(Object.entries(fs).map(([k, v]) => [k, { ...v }]));
function modulesBack(q, fs) {
  for (const [k, v] of Object.entries(q.functions)) if (v.module && q.rng.bool(0.7)) fs[k].module = v.module;
    else fs[k].module = undefined;
}
function secretFaults(w, rng, f) {
  const handle = w.baseHandle ?? (w.baseHandle = w.fake.handle);
  w.fake.handle = async (r) => {
    if (r.target === "secretsmanager.GetSecretValue" && f.secretRate && rng.bool(f.secretRate)) {
      f.hits++;
      f.total++;
      return { status: 500, body: JSON.stringify({ __type: "InternalServiceError", message: "down" }) };
    }
    return handle(r);
  };
}
/** the SendMessage integration of the API, from the template */
function queueApi(cfn) {
  for (const [, r] of cfn.of("AWS::ApiGateway::Method")) {
    const i = r.Properties.Integration ?? {};
    if (!/:sqs:/.test(text(i.Uri))) continue;
    return { intake: { template: Object.values(i.RequestTemplates ?? {})[0], uri: text(i.Uri) } };
  }
  return {};
}
/** deliver everything, with faults attributed to the deliveries they hit */
async function run(ctx, rng, q, f, w) {
  const limit = rng.pick([5, 40, 200]);
  for (let i = 0; i < limit; i++) {
    const busy = q.mappings.filter((m) => m.enabled && q.ready.get(m.queue).length);
    if (!busy.length) return;
    const map = rng.pick(busy);
    const before = f.hits;
    const n = q.invocations.length;
    await q.deliver(map, { max: rng.bool(0.3) ? 1 : undefined });
    const inv = q.invocations[n];
    if (!inv) continue;
    ctx.observe("deliveries");
    const batch = q.messages.filter((m) => inv.ids.includes(m.id));
    if (f.hits > before) {
      ctx.observe("transient-faults");
      for (const m of batch) if (q.queues[map.queue].dlq) m.faults++;
    }
    if (inv.failed.length) ctx.observe("failed-deliveries");
    if (inv.failed.length && inv.failed.length < batch.length) ctx.observe("mixed-batches");
    // at-least-once
    for (const m of batch)
      if (m.state === "deleted" && q.queues[map.queue].dlq && rng.bool(0.06)) {
        m.again = true;
        q.redeliver(m);
        ctx.observe("duplicate-deliveries");
      }
  }
  void w;
}

// ---- maintenance trackings ----------------------------------------------------------
function message(rng, w, n, pool) {
  const havainnot = rng.array(rng.int(1, 4), (i) => {
    const again = pool.length && rng.bool(0.12) ? rng.pick(pool) : undefined;
    if (again) return structuredClone(again);
    const h = { havainto: { tyokone: { id: rng.int(1, 1e6), tunnus: "T" + n }, jarjestelma: "J", havaintoaika: new Date(w.now - rng.int(0, 1e6) * 1000).toISOString(), urakkaid: rng.int(1, 1000), sijainti: { koordinaatit: { x: rng.int(1, 1e6), y: rng.int(1, 1e6) } }, suoritettavatTehtavat: rng.subset(["suolaus", "auraus", "paallystys", "$'ä"], 0.5), i: `${n}.${i}` } };
    pool.push(h);
    return h;
  });
  return { otsikko: { lahettaja: { jarjestelma: rng.pick(["Zeus", "Urakoitsija'n", "A"]) }, viestintunniste: { id: n }, lahetysaika: new Date(w.now).toISOString().replace("Z", "+00:00") }, havainnot };
}
async function tracking(ctx) {
  const app = "road/maintenance-tracking";
  const cfn = await template(app, "maintenance-tracking-stack", "MaintenanceTrackingStack", { sqsDlqBucketName: "mt-dlq", sqsMessageBucketName: "mt-big", secretId: "app-secret" });
  const conf = readQueues(cfn, app);
  wiring(ctx, conf, "maintenance-tracking");
  const main = Object.values(conf.queues).find((q) => q.dlq);
  const entry = Object.values(conf.functions).find((f) => f.env.SQS_QUEUE_URL === url(main.id) && !conf.mappings.some((m) => m.fn === f.id));
  ctx.expect(entry?.rel, "mt:intake", "nothing receives messages for the queue", {});
  const w = await new World(TRACKING_DDL).open();
  try {
    for (let i = 0; i < ctx.n(80, 900); i++) {
      const rng = ctx.rng.fork();
      w.reset();
      const s3 = bucket(w);
      const f = faults(rng, w);
      const q = new Queues({ ...conf, functions: structuredClone2(conf.functions) }, { rng, tick: () => (w.now += rng.int(1, 5000)) });
      q.baseEnv = awsEnv();
      secretFaults(w, rng, f);
      const pool = [];
      const expected = new Map();
      let n = 0;
      for (let r = rng.int(2, 4); r > 0; r--) {
        f.rate = rng.pick([0, 0, 0, 0.03, 0.12]);
        f.secretRate = rng.pick([0, 0, 0, 0.4]);
        s3.fail = () => rng.bool(s3.rate ?? 0);
        s3.rate = rng.pick([0, 0, 0.5]);
        q.sendRate = rng.pick([0, 0, 0.3]);
        q.sendFails = () => rng.bool(q.sendRate);
        q.parkFails = () => rng.bool(q.sendRate);
        q.unparkFails = () => {
          const bad = rng.bool(f.secretRate);
          if (bad) f.hits++;
          return bad;
        };
        for (let k = rng.int(1, 6); k > 0; k--) {
          const t = message(rng, w, ++n, pool);
          const roll = rng.int(0, 9);
          let body = JSON.stringify(t);
          let kind = "stored";
          if (roll === 0) [body, kind] = [rng.pick(["{", "not json", `${body},`, ""]), "refused"];
          else if (roll === 1) {
            const bad = rng.pick([{ havainnot: undefined }, { otsikko: undefined }, { havainnot: [...t.havainnot, { havainto: { ...t.havainnot[0].havainto, i: n + "x", havaintoaika: "yesterday" } }] }, { havainnot: [...t.havainnot, { havainto: { ...t.havainnot[0].havainto, i: n + "y", urakkaid: undefined } }] }, { havainnot: [...t.havainnot, { havainto: { ...t.havainnot[0].havainto, i: n + "z", tyokone: undefined } }] }]);
            [body, kind] = [JSON.stringify({ ...t, ...bad, n }), "dead"];
          } else if (roll === 2) {
            t.havainnot[0].havainto.pad = "ä".repeat(rng.int(131000, 160000));
            body = JSON.stringify(t);
            if (Buffer.byteLength(body) > 256 * 1024) ctx.observe("large-bodies");
          }
          const known = q.messages.length;
          const handler = await q.load(entry.id);
          w.now += 7;
          const a = await ctx.attempt(() => handler({ body: body === "" ? null : body, headers: {}, httpMethod: "POST" }));
          const accepted = a.ok && a.value?.statusCode === 200;
          const sent = q.messages.slice(known);
          const about = { kind, body: body.slice(0, 300), answer: a.ok ? a.value : String(a.error?.body ?? a.error) };
          if (kind === "refused") {
            ctx.observe("refused-requests");
            ctx.expect(!accepted && !sent.length, "mt:unparsable-accepted", "a request that is not JSON was accepted", about);
          } else if (accepted) ctx.expect(sent.length === 1, "mt:accepted-unsent", "a request was accepted but its message is not on the queue", { ...about, sent: sent.length });
          else {
            ctx.observe("refused-requests");
            ctx.expect(q.sendRate > 0, "mt:refused", "a sound request was refused", about);
          }
          for (const m of sent) {
            const real = m.attributes.S3MessageBodyKey ? q.parked.get(`mt-big/${JSON.parse(m.body).S3MessageBodyKey}`) : m.body;
            ctx.expect(real === body, "mt:intake-body", "the message differs from the request", { body: body.slice(0, 300), queued: String(real).slice(0, 300) });
            expected.set(m, { kind, t, body: m.body });
          }
        }
        await run(ctx, rng, q, f, w);
      }
      f.rate = 0;
      f.secretRate = 0;
      s3.rate = 0;
      const done = await q.drain({ limit: 3000 });
      ctx.expect(done, "mt:not-drained", "messages go round in the queues for ever", { left: q.messages.filter((m) => m.state === "queued").length });
      const rows = w.sql.all("select * from maintenance_tracking_observation_data");
      const byHash = new Map(rows.map((r) => [r.hash, r]));
      const dead = [...s3.objects].map(([k, b]) => ({ k, b }));
      for (const o of s3.overwritten) ctx.violation("mt:overwritten", "a dead letter was overwritten by another", o);
      const claimed = new Set();
      for (const [m, x] of expected) {
        const letters = dead.filter((d) => d.b === x.body);
        for (const l of letters) ctx.expect(l.k.startsWith("mt-dlq/"), "mt:dlq-bucket", "a dead letter is in the wrong bucket", l.k);
        const about = { kind: x.kind, body: x.body.slice(0, 300), receives: m.total, faults: m.faults, letters: letters.length };
        if (x.kind === "dead") {
          ctx.observe("poison-messages");
          ctx.expect(letters.length >= 1, "mt:poison-lost", "a message that cannot be handled disappeared", about);
          continue;
        }
        const wanted = x.t.havainnot.map((h) => ({ h: h.havainto, json: JSON.stringify(h.havainto) }));
        const have = wanted.map((o) => byHash.get(createHash("sha256").update(o.json).digest("hex")));
        for (const r of have) if (r) claimed.add(r.hash);
        const all = have.every(Boolean);
        ctx.expect(all || letters.length >= 1, "mt:lost", "observations of an accepted message are neither stored nor kept as a dead letter", { ...about, stored: have.filter(Boolean).length, of: have.length });
        if (!m.faults && !m.again) ctx.expect(all && m.total === 1 && !letters.length, "mt:dragged", "a sound message was not stored by its first delivery", about);
        if (m.faults < main.maxReceive) ctx.expect(all, "mt:retry", "a message was given up though an attempt without any failure was left", about);
        if (all) {
          ctx.observe("stored");
          wanted.forEach((o, k) => {
            const r = have[k];
            ctx.expect(r.json === o.json && r.observation_time === Date.parse(o.h.havaintoaika) && r.harja_workmachine_id === o.h.tyokone.id && r.harja_contract_id === o.h.urakkaid && r.status === "UNHANDLED", "mt:content", "a stored observation differs from the message", { row: { ...r, json: r.json.slice(0, 200) }, observation: o.json.slice(0, 200) });
            const from = [...expected.values()].filter((y) => y.t.havainnot?.some((h) => JSON.stringify(h.havainto) === o.json));
            ctx.expect(from.some((y) => r.sending_system === y.t.otsikko.lahettaja.jarjestelma && r.sending_time === Date.parse(y.t.otsikko.lahetysaika)), "mt:sender", "a stored observation does not carry the sender of its message", { system: r.sending_system, time: r.sending_time });
          });
        }
      }
      for (const r of rows) ctx.expect(claimed.has(r.hash), "mt:partial", "an observation of a message that failed was stored", { json: r.json.slice(0, 200) });
      ctx.observe("dead-letters", dead.length);
      for (const d of dead) ctx.expect([...expected.values()].some((x) => x.body === d.b), "mt:dlq-content", "a dead letter does not have the content of the message", { k: d.k, b: d.b.slice(0, 200) });
      modulesBack(q, conf.functions);
      ctx.case({ i, app, n, inv: q.invocations.length }, q.invocations.length > 0, { messages: n, deliveries: q.invocations.length, stored: rows.length, dead: dead.length });
      if (w.sql.unsupported.length) throw new Error("unsupported SQL " + JSON.stringify(w.sql.unsupported[0]));
    }
  } finally {
    await w.close();
  }
}

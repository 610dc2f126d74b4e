// Data uploads: variable sign documents uploaded through the API and road traffic messages
// read from a topic, to the tables they end in and the broker they are published on. Queues,
// subscriptions and functions come from the synthesized template.
import { World } from "../harness/world.mjs";
import { baseConfig } from "../harness/infra.mjs";
import { target } from "../harness/cfn.mjs";
import { Queues, readQueues } from "../harness/queues.mjs";
import { el, render, parse, canon, find } from "../harness/xmlmini.mjs";
import { template } from "./P24.mjs";

const TS = (c, more = "") => `${c} TIMESTAMPTZ ${more} check(${c} is null or typeof(${c}) = 'integer')`;
const DDL = `
create table data_incoming(data_id INTEGER primary key autoincrement, message_id TEXT not null, source TEXT not null, version TEXT not null, type TEXT not null, data TEXT not null, status TEXT not null check(status in ('NEW','PROCESSED','FAILED')), ${TS("created_at", "not null default (now())")});
create table device_data_datex2(device_id TEXT not null, version TEXT not null, type TEXT not null, datex2 TEXT not null, ${TS("effect_date", "not null")}, unique(device_id, version, type));
create table datex2_rtti(id INTEGER primary key autoincrement, situation_id TEXT not null, type TEXT not null, ${TS("publication_time", "not null")}, geometry TEXT not null, ${TS("start_time", "not null")}, ${TS("end_time")}, is_srti BOOL not null, message TEXT not null);
`;
const VERSIONS = ["DATEXII_2_2_3", "DATEXII_3_5", "DATEXII_3_7"];
const VMS = ["VARIABLE_MESSAGE_SIGN_DATEX_XML", "VARIABLE_MESSAGE_SIGN_METADATA_XML"];
const DAY = 864e5;
const APP = "road/data-upload";
const NS = Object.fromEntries([["com", "common"], ["loc", "locationReferencing"], ["roa", "roadTrafficData"], ["d2", "d2Payload"], ["vms", "vms"], ["sit", "situation"]].map(([p, n]) => [`xmlns:${p}`, `http://datex2.eu/schema/3/${n}`]));
const XSI = { "xmlns:xsi": "http://www.w3.org/2001/XMLSchema-instance" };

export default {
  id: "P27",
  rule: "A case is one history of uploads, topic messages, deliveries, cleanings and faults until every queue is empty; non-trivial when a message was handled.",
  assumptions: ["Queue and redrive semantics are modelled after the platform's documentation.", "SQL is executed by SQLite after translation; xml2js and the MQTT client are replaced by stand-ins with their documented behaviour.", "Invocations of the message handler do not overlap."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ uploads: 700, refused: 150, "failed-uploads": 60, "topic-messages": 150, processed: 700, "failed-messages": 80, "poison-documents": 80, "device-rows": 500, overwritten: 200, "several-new-at-once": 60, published: 100, "publish-faults": 10, "old-deleted": 100, "young-kept": 100, "handler-faults": 40 })) ctx.require(k, n);
    const cfg = { rttiTopicArn: "arn:aws:sns:eu-west-1:123456789012:rtti.fifo", secretId: "app-secret" };
    const withMqtt = await template(APP, "data-upload-stack", "DataUploadStack", cfg);
    const without = await template(APP, "data-upload-stack", "DataUploadStack", { ...cfg, sendMqtt: false });
    const w = await new World(DDL).open();
    const realIndexOf = String.prototype.indexOf;
    try {
      const setups = [setup(ctx, withMqtt, true), setup(ctx, without, false)];
      for (let i = 0; i < ctx.n(150, 1500); i++) {
        await history(ctx, w, setups[i % 5 === 4 ? 1 : 0], i);
        if (w.sql.unsupported.length) throw new Error("unsupported SQL " + JSON.stringify(w.sql.unsupported[0]));
      }
    } finally {
      String.prototype.indexOf = realIndexOf;
      await w.close();
    }
    void baseConfig;
  },
};

/** what the template says about this application */
function setup(ctx, cfn, mqtt) {
  const conf = readQueues(cfn, APP);
  const fn = (dir) => Object.values(conf.functions).find((f) => f.wanted.includes(`/lambda/${dir}/`));
  const s = { cfn, conf, mqtt, upload: fn("upload-datex2"), remove: fn("delete-old-messages") };
  for (const m of conf.mappings) ctx.expect(conf.queues[m.queue].visibility >= conf.functions[m.fn].timeout, "visibility", "messages become visible again while their consumer is still working", { queue: m.queue });
  const methods = cfn.of("AWS::ApiGateway::Method").filter(([, r]) => r.Properties.HttpMethod === "PUT" && JSON.stringify(r.Properties.Integration ?? {}).includes(s.upload.id));
  ctx.expect(methods.length === 1 && methods[0][1].Properties.ApiKeyRequired === true, "intake", "uploads have no method, or one that needs no API key", { methods: methods.length });
  const rules = cfn.of("AWS::Events::Rule").filter(([, r]) => (r.Properties.Targets ?? []).some((t) => target(t.Arn) === s.remove.id) && r.Properties.State !== "DISABLED");
  ctx.expect(rules.length === 1, "cleaning-scheduled", "old messages are never cleaned away", {});
  s.subscriptions = cfn.of("AWS::SNS::Subscription").filter(([, r]) => r.Properties.Protocol === "sqs").map(([, r]) => ({ queue: target(r.Properties.Endpoint), raw: r.Properties.RawMessageDelivery === true, filter: r.Properties.FilterPolicy }));
  ctx.expect(s.subscriptions.length === 1 && conf.queues[s.subscriptions[0].queue], "subscribed", "messages of the topic are not subscribed to", s.subscriptions);
  // the consumer of the topic's queue is known by its queue, the handler and the publisher by elimination
  s.topicQueue = s.subscriptions[0]?.queue;
  s.mqttQueue = conf.mappings.find((m) => conf.functions[m.fn].wanted.includes("/send-mqtt/"))?.queue;
  s.handler = conf.mappings.find((m) => conf.functions[m.fn].wanted.includes("/handle-new-messages/"))?.fn;
  return s;
}

// ---- documents ---------------------------------------------------------------------
const TEXTS = ["slippery", "$& $1 $' $`", "\u00e4\u00f6 & <tie>", "\"quoted\" 'text'", "SITUATION", "  spaced  ", "PUBLICATION_TIME"];
const iso = (t) => new Date(t).toISOString();
function extras(rng, n) {
  return [el("overallSeverity", {}, rng.pick(["high", "low"])), el("comment", {}, rng.pick(TEXTS) + " n" + n), ...rng.array(rng.int(0, 2), (i) => el("speed", { index: String(i), note: rng.pick(TEXTS) }, String(rng.int(20, 120))))];
}
const write = (rng, node) => {
  const style = rng.int(0, 2);
  return (rng.bool(0.8) ? `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>${style ? "\n" : ""}` : "") + render(node, style === 0 ? undefined : (d) => "\n" + (style === 1 ? "   " : "\t").repeat(d));
};
/** a document about some devices: {version, type, data, parts: [{id, type, effect, node | text}], sound} */
function vmsDocument(rng, w, n, devices) {
  const version = rng.pick(VERSIONS);
  const start = () => w.now - rng.int(-1000, 100000) * 1000;
  const spoil = rng.bool(0.16) ? rng.pick(["end", "time", "xml", "kind", "tail"]) : undefined;
  const kind = version === "DATEXII_2_2_3" ? "SITUATION" : rng.pick(["SITUATION", "CONTROLLER_STATUS", "CONTROLLER"]);
  const type = kind === "CONTROLLER" ? VMS[1] : rng.bool(0.9) ? VMS[0] : VMS[1];
  const parts = devices.map((id) => ({ id, type: kind, effect: start() }));
  let data;
  let sound = true;
  if (version === "DATEXII_2_2_3") {
    const pad = rng.bool(0.5) ? (d) => "\n" + "  ".repeat(d) : undefined;
    for (const p of parts) {
      const node = el("situation", { id: p.id, version: String(n) }, extras(rng, n), el("situationRecord", { "xsi:type": "SpeedManagement", id: p.id }, el("validity", {}, el("validityTimeSpecification", {}, el("overallStartTime", {}, iso(p.effect))))));
      p.text = render(node, pad);
    }
    if (spoil === "time" && parts.length) {
      // one of the parts cannot be stored
      const p = rng.pick(parts);
      p.text = p.text.replace(/<overallStartTime>[^<]*/, "<overallStartTime>soon");
      p.broken = true;
      sound = false;
    }
    data = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?><d2LogicalModel modelBaseVersion="2" xmlns="http://datex2.eu/schema/2/2_0"><payloadPublication xsi:type="SituationPublication" lang="fi"><publicationTime>${iso(w.now)}</publicationTime>${parts.map((p) => p.text).join("\n")}</payloadPublication></d2LogicalModel>`;
    if ((spoil === "end" || spoil === "xml") && parts.length) {
      data = data.slice(0, data.lastIndexOf("</situation>") + (spoil === "end" ? 0 : 4));
      sound = false;
    }
  } else {
    for (const p of parts) {
      if (kind === "SITUATION") p.node = el("sit:situation", { id: p.id }, extras(rng, n), el("sit:situationRecord", { "xsi:type": "sit:SpeedManagement", ...XSI }, el("sit:validity", {}, el("com:validityTimeSpecification", {}, el("com:overallStartTime", {}, iso(p.effect))))));
      else if (kind === "CONTROLLER_STATUS") p.node = el("vms:vmsControllerStatus", {}, el("vms:vmsControllerReference", { id: p.id, version: "1" }), el("vms:statusUpdateTime", {}, iso(p.effect)), extras(rng, n));
      else {
        p.node = el("vms:vmsController", { id: p.id, version: String(n) }, extras(rng, n));
        p.effect = undefined;
      }
    }
    if (spoil === "time" && parts.length && kind !== "CONTROLLER") {
      const p = rng.pick(parts);
      for (const t of [...find(p.node, "com:overallStartTime"), ...find(p.node, "vms:statusUpdateTime")]) t.children = ["soon"];
      p.broken = true;
      sound = false;
    }
    const time = el("com:publicationTime", {}, iso(w.now));
    const payload = (t, ...kids) => el("d2:payload", { "xsi:type": spoil === "kind" ? "vms:Other" : t, ...NS, ...XSI }, time, kids);
    const nodes = parts.map((p) => p.node);
    const root = kind === "SITUATION" ? el("sit:situationPublication", { lang: "fi", ...NS }, time, nodes) : kind === "CONTROLLER_STATUS" ? payload("vms:VmsPublication", nodes) : payload("vms:VmsTablePublication", el("vms:vmsControllerTable", { id: "T" }, nodes));
    if (spoil === "kind" && kind !== "SITUATION") sound = false;
    data = write(rng, root);
    if (spoil === "end" || spoil === "tail") {
      data = data.slice(0, data.lastIndexOf("</"));
      sound = false;
    }
    if (spoil === "xml") {
      data = data.replace("n" + n, "n" + n + " <broken");
      sound = false;
    }
  }
  return { version, type, data, parts, sound };
}
function rttiDocument(rng, w, n, id) {
  const srti = rng.bool(0.4);
  const start = w.now - rng.int(0, 1000) * 1000;
  const end = rng.bool(0.5) ? w.now + rng.int(1, 1000) * 1000 : undefined;
  const published = w.now + rng.int(-40, 40) * 1000 + n; // later messages can be older publications
  const node = el("sit:situation", { id }, extras(rng, n), el("sit:situationRecord", { "xsi:type": "sit:Conditions", ...XSI, id, version: "1" }, el("sit:validity", {}, el("com:validityTimeSpecification", {}, el("com:overallStartTime", {}, iso(start)), end && el("com:overallEndTime", {}, iso(end)))), rng.bool(0.8) || srti ? el("sit:safetyRelatedMessage", {}, String(srti)) : undefined));
  const doc = el("d2:payload", { "xsi:type": "sit:SituationPublication", ...NS, ...XSI }, el("com:publicationTime", {}, iso(published)), node);
  let data = write(rng, doc);
  const sound = rng.bool(0.9);
  if (!sound) data = data.slice(0, data.lastIndexOf("</sit:situation>"));
  return { id, srti, start, end, published, node, data, sound, version: "3.5", type: "RTTI_DATEX_XML", rtti: true };
}

// ---- one history -----------------------------------------------------------------------
async function history(ctx, w, s, index) {
  const rng = ctx.rng.fork();
  w.reset();
  const conf = s.conf;
  const q = new Queues({ ...conf, functions: Object.fromEntries(Object.entries(conf.functions).map(([k, v]) => [k, { ...v }])) }, { rng, tick: () => (w.now += rng.int(1, 5000)) });
  q.baseEnv = Object.fromEntries(Object.entries(process.env).filter(([k]) => k.startsWith("AWS_")));
  const f = { rate: 0, secret: 0, send: 0, mqtt: 0, hits: 0 };
  const hit = (p) => p > 0 && rng.bool(p) && ++f.hits;
  const slow = rng.bool(0.7);
  w.sql.fail = async (ses, sql) => {
    if (/^\s*(rollback|discard|show|set|begin|commit)/i.test(sql)) return undefined;
    if (slow && rng.bool(0.35)) await new Promise((r) => setTimeout(r, rng.pick([0, 1, 4])));
    if (!hit(f.rate)) return undefined;
    return rng.bool(0.2) ? { destroy: true } : { error: { message: "deadlock detected", code: "40P01" } };
  };
  w.baseHandle ??= w.fake.handle;
  w.fake.handle = async (r) => (r.target === "secretsmanager.GetSecretValue" && hit(f.secret) ? { status: 500, body: JSON.stringify({ __type: "InternalServiceError", message: "down" }) } : w.baseHandle(r));
  w.secret({ "mqtt.server.username": "mu", "mqtt.server.password": "mp", "mqtt.server.url": "mqtts://broker.example:8883" });
  q.sendFails = () => hit(f.send);
  const broker = { published: [], open: 0, opts: [] };
  globalThis.__mqtt = {
    connect: async (o) => {
      if (hit(f.mqtt)) throw new Error("connection refused");
      broker.opts.push(o);
      return {};
    },
    publish: async (_s, topic, message) => {
      if (hit(f.mqtt)) throw new Error("publish failed");
      broker.published.push({ topic, message: String(message), at: w.now, n: q.invocations.length - 1 });
    },
    end: async () => {},
  };
  const docs = new Map(); // data -> description
  const accepted = []; // documents whose acceptance was confirmed
  const faulted = new Set(); // data_id of rows an interrupted run had in hand
  let n = 0;
  const devices = rng.array(rng.int(1, 5), (i) => rng.pick(["KRM", "VME", "kela-"]) + (100 + i));
  const situations = rng.array(rng.int(1, 3), (i) => `GUID${i}`);
  const upload = async () => {
    w.now += rng.int(1, 20000);
    const h = await q.load(s.upload.id);
    const versions = [];
    const pool = rng.shuffle([...devices]);
    for (let k = rng.int(1, 3); k > 0; k--) {
      // a device is in one document of a request only: their order is not fixed
      const own = pool.splice(0, rng.int(1, 2));
      if (!own.length && versions.length) break;
      const d = vmsDocument(rng, w, ++n, own.length ? own : [devices[0]]);
      versions.push(d);
    }
    const used = new Map();
    if (rng.bool(0.1)) versions.push({ version: rng.pick(["DATEXII_3_5", "other"]), type: "OTHER_TYPE", data: `<free n="${++n}"/>`, parts: [], other: true });
    void used;
    const payload = { datexIIVersions: versions.map((d) => ({ type: d.type, version: d.version, message: d.data })) };
    let body = JSON.stringify(payload, null, rng.pick([0, 0, 1]));
    let bad = false;
    if (rng.bool(0.2)) {
      bad = true;
      const m = payload.datexIIVersions[0];
      body = rng.pick([undefined, "", "{", "not json", "null", "[]", JSON.stringify({}), JSON.stringify({ datexIIVersions: [] }), JSON.stringify({ datexIIVersions: m }), JSON.stringify({ ...payload, extra: 1 }), JSON.stringify({ datexIIVersions: [{ ...m, extra: 1 }] }), JSON.stringify({ datexIIVersions: [{ ...m, message: undefined }] }), JSON.stringify({ datexIIVersions: [...payload.datexIIVersions, { ...m, version: 35 }] }), JSON.stringify(payload.datexIIVersions)]);
    }
    for (const d of versions) docs.set(d.data, d);
    const rid = rng.bool(0.6) ? `req-${n}` : undefined;
    const before = w.sql.all("select max(data_id) m from data_incoming")[0].m ?? 0;
    const queued = q.messages.length;
    const hits = f.hits;
    let r;
    try {
      r = await h({ body, headers: rid ? { "X-Request-ID": rid } : {}, httpMethod: "PUT", path: "/upload/v1/datex2" });
    } catch (e) {
      r = { statusCode: 502, thrown: e };
    }
    if (f.hits > hits) await quiet();
    const rows = w.sql.all("select * from data_incoming where data_id > ?", before);
    const faults = f.hits > hits;
    const about = { status: r.statusCode, body: body?.slice(0, 300), faults, rows: rows.length, error: String(r.thrown ?? "") };
    if (bad) {
      ctx.observe("refused");
      ctx.expect(r.statusCode === 400, "upload:invalid", "an invalid upload is not refused as a bad request", about);
      ctx.expect(!rows.length && q.messages.length === queued, "upload:invalid-stored", "something of a refused upload was stored or announced", about);
      return;
    }
    ctx.observe("uploads");
    if (faults) {
      ctx.observe("failed-uploads");
      ctx.expect(r.statusCode === 200 || r.statusCode >= 500, "upload:status", "a failure here is reported as the sender's", about);
    } else ctx.expect(r.statusCode === 200, "upload:refused", "a valid upload is not accepted", about);
    if (r.statusCode === 200) {
      ctx.equal(rows.map((x) => [x.source, x.version, x.type, x.data]).sort(), versions.map((d) => ["API", d.version, d.type, d.data]).sort(), "upload:stored", "an accepted upload is not stored as it was sent", about);
      ctx.expect(new Set(rows.map((x) => x.message_id)).size === 1 && rows[0].message_id && (!rid || rows[0].message_id === rid), "upload:id", "the rows of an upload do not carry its request id", { rid, ids: rows.map((x) => x.message_id) });
      ctx.expect(q.messages.length === queued + 1, "upload:announced", "an accepted upload does not trigger its handling", about);
      accepted.push(...versions);
    }
  };
  const topic = () => {
    w.now += rng.int(1, 5000);
    const several = rng.array(rng.int(1, 2), () => rttiDocument(rng, w, ++n, rng.pick(situations)));
    for (const d of several) docs.set(d.data, d);
    let message = JSON.stringify({ messageId: `m${n}`, date: iso(w.now), messageVersions: several.map((d) => ({ messageContent: d.data, messageType: "DATEX2", typeVersion: d.version })) });
    const poison = rng.bool(0.12);
    if (poison) message = rng.pick(["{", JSON.stringify({ messageId: "x" }), JSON.stringify({ messageId: "x", date: iso(w.now), messageVersions: [{ messageContent: 5, messageType: "DATEX2", typeVersion: "3.5" }] })]);
    const sub = s.subscriptions[0];
    const m = q.put(sub.queue, sub.raw ? message : JSON.stringify({ Type: "Notification", MessageId: `sns-${n}`, TopicArn: "arn:aws:sns:eu-west-1:123456789012:rtti.fifo", Message: message, Timestamp: iso(w.now) }));
    ctx.observe("topic-messages");
    m.docs = poison ? [] : several;
  };
  // what an interrupted invocation left running comes to rest before the next one
  const quiet = async () => {
    for (let n = -1; n !== w.sql.log.length; ) {
      n = w.sql.log.length;
      await new Promise((r) => setTimeout(r, 12));
    }
  };
  const guarded = async (fn) => {
    // a handler that searches a document for ever would stop this check as well
    const real = String.prototype.indexOf;
    let calls = 0;
    let endless = 0;
    const rest = setInterval(() => (calls = 0), 0);
    String.prototype.indexOf = function (...a) {
      if (++calls > 400_000) {
        calls = 0;
        endless++;
        throw new Error("endless search");
      }
      return real.apply(this, a);
    };
    try {
      return await fn();
    } finally {
      String.prototype.indexOf = real;
      clearInterval(rest);
      if (endless) ctx.violation("endless", "handling a document never ends", { endless });
    }
  };
  const deliver = async (map) => {
    const hits = f.hits;
    const fresh = w.sql.all("select data_id, type from data_incoming where status = 'NEW'");
    const count = q.invocations.length;
    const sent = broker.published.length;
    await guarded(() => q.deliver(map, { max: rng.bool(0.3) ? 1 : undefined }));
    if (f.hits > hits) await quiet();
    const inv = q.invocations[count];
    if (!inv) return;
    inv.faulted = f.hits > hits;
    if (map.fn === s.handler) {
      if (inv.faulted) {
        ctx.observe("handler-faults");
        for (const r of fresh) faulted.add(r.data_id);
      } else ctx.expect(!inv.error, "handler:throws", "handling new messages fails though nothing around it does", { error: String(inv.error) });
      if (fresh.length > 1) ctx.observe("several-new-at-once");
    }
    if (map.queue === s.mqttQueue) {
      if (inv.faulted) ctx.observe("publish-faults");
      const batch = q.messages.filter((m) => inv.ids.includes(m.id));
      const out = broker.published.slice(sent);
      for (const m of batch) {
        const id = JSON.parse(m.body).id;
        if (m.state !== "deleted") continue;
        const newest = w.sql.all("select * from datex2_rtti where situation_id = ? order by publication_time desc limit 1", id)[0];
        const mine = out.filter((p) => situationOf(p.message)?.attrs.id === id);
        ctx.expect(mine.length === 1, "mqtt:published", "an announced situation was taken off the queue without being published once", { id, faulted: inv.faulted, published: out.length });
        if (mine.length === 1) published(ctx, mine[0], docs.get(newest?.message), newest, w);
      }
    }
    if (map.queue === s.topicQueue)
      for (const m of q.messages.filter((x) => inv.ids.includes(x.id) && x.state === "deleted"))
        for (const d of m.docs ?? []) ctx.expect(w.sql.all("select 1 from data_incoming where data = ? and source = 'TOPIC' and type = 'RTTI_DATEX_XML' and version = ?", d.data, d.version).length >= 1, "topic:stored", "a message of the topic was taken off the queue without being stored", { faulted: inv.faulted, batch: inv.ids.length });
    if (map.queue === s.topicQueue && !inv.faulted) ctx.expect(!inv.error, "topic:throws", "reading the topic fails though nothing around it does", { error: String(inv.error) });
  };
  const clean = async (sure) => {
    const rows = w.sql.all("select data_id, created_at from data_incoming");
    const hits = f.hits;
    try {
      await (await q.load(s.remove.id))({});
    } catch (e) {
      if (f.hits === hits) ctx.violation("clean:throws", "cleaning fails though nothing around it does", { error: String(e) });
      return;
    }
    const left = new Set(w.sql.all("select data_id from data_incoming").map((r) => r.data_id));
    for (const r of rows) {
      if (r.created_at >= w.now - 7 * DAY) {
        ctx.observe("young-kept");
        ctx.expect(left.has(r.data_id), "clean:young", "a message not a week old was cleaned away", { age: w.now - r.created_at });
      } else if (r.created_at < w.now - 8 * DAY && f.hits === hits) {
        ctx.observe("old-deleted");
        ctx.expect(!left.has(r.data_id), "clean:old", "a message over a week old was not cleaned away", { age: w.now - r.created_at });
      }
    }
    void sure;
  };
  const rest = async (limit) => {
    for (let i = 0; i < limit; i++) {
      const busy = q.mappings.filter((m) => m.enabled && q.ready.get(m.queue).length);
      if (!busy.length) return true;
      await deliver(rng.pick(busy));
    }
    return false;
  };
  const faults = (on) => {
    f.rate = on ? rng.pick([0, 0, 0.03, 0.15]) : 0;
    f.secret = on ? rng.pick([0, 0, 0, 0.3]) : 0;
    f.send = on ? rng.pick([0, 0, 0, 0.3]) : 0;
    f.mqtt = on ? rng.pick([0, 0, 0.3]) : 0;
  };
  // messages of former days
  w.sql.insert("data_incoming", rng.array(rng.int(2, 6), (i) => ({ message_id: `old${i}`, source: "API", version: "DATEXII_3_5", type: VMS[0], data: `<old n="${i}"/>`, status: rng.pick(["PROCESSED", "FAILED"]), created_at: w.now - (rng.pick([6, 7, 8, 9, 12]) * DAY - rng.pick([1000, -1000, 3600_000, 0])) })));
  for (let r = rng.int(2, 5); r > 0; r--) {
    faults(true);
    for (let k = rng.int(1, 4); k > 0; k--) await upload();
    if (rng.bool(0.6)) for (let k = rng.int(1, 3); k > 0; k--) topic();
    if (rng.bool(0.85)) await rest(rng.pick([1, 3, 10, 60]));
    if (rng.bool(0.3)) await clean();
  }
  // what was left is handled after the next sound upload
  faults(false);
  await rest(2000);
  for (let tries = 0, was = q.messages.length; tries < 60 && q.messages.length === was; tries++) await upload();
  const done = await rest(2000);
  ctx.expect(done, "not-drained", "messages go round in the queues for ever", {});
  // ---- oracle
  const rows = w.sql.all("select * from data_incoming where data not like '<old %' order by created_at, data_id");
  for (const r of rows) {
    const d = docs.get(r.data);
    if (!d) {
      ctx.violation("unknown-row", "a message that nobody sent was stored", r);
      continue;
    }
    const about = { status: r.status, version: r.version, type: r.type, faulted: faulted.has(r.data_id), data: r.data.slice(0, 1500) };
    if (d.other) {
      ctx.expect(r.status === "NEW", "other-type", "a message of another kind was handled", about);
      continue;
    }
    ctx.expect(r.status !== "NEW", "unhandled", "an accepted message was never handled", about);
    if (r.status === "PROCESSED") ctx.observe("processed");
    else ctx.observe("failed-messages");
    if (!d.sound) {
      ctx.observe("poison-documents");
      ctx.expect(r.status !== "PROCESSED", "poison-processed", "a document that could not be stored whole is marked as processed", about);
    } else if (!faulted.has(r.data_id)) ctx.expect(r.status === "PROCESSED", "sound-failed", "a sound document is marked as failed", about);
    if (d.rtti && r.status === "PROCESSED") {
      const at = w.sql.all("select * from datex2_rtti where message = ?", r.data);
      ctx.expect(at.length >= 1, "rtti:lost", "a processed situation was not stored", about);
      if (at.length) ctx.equal([at[0].situation_id, at[0].publication_time, at[0].start_time, at[0].end_time, Boolean(at[0].is_srti)], [d.id, d.published, d.start, d.end ?? null, d.srti], "rtti:row", "a stored situation differs from its message", about);
      const told = q.messages.filter((m) => m.origin === s.mqttQueue && JSON.parse(m.body).id === d.id).length;
      ctx.expect(s.mqtt ? told >= 1 : !told, "rtti:announced", s.mqtt ? "a processed situation was not announced for publishing" : "a situation is announced though publishing is turned off", { id: d.id, told });
    }
  }
  for (const d of accepted) ctx.expect(rows.some((r) => r.data === d.data), "accepted-lost", "an accepted document disappeared", { data: d.data.slice(0, 300) });
  const table = w.sql.all("select * from device_data_datex2");
  const wanted = new Map();
  for (const r of rows) {
    const d = docs.get(r.data);
    if (!d?.parts || d.rtti) continue;
    for (const p of d.parts) {
      const k = [p.id, d.version, p.type].join("|");
      if (!wanted.has(k)) wanted.set(k, []);
      wanted.get(k).unshift({ r, d, p });
    }
  }
  for (const t of table) ctx.expect(wanted.has([t.device_id, t.version, t.type].join("|")), "device:unknown", "data of a device nobody sent is stored", { ...t, datex2: t.datex2.slice(0, 300) });
  for (const [k, list] of wanted) {
    const t = table.find((x) => [x.device_id, x.version, x.type].join("|") === k);
    const last = list.findIndex((x) => x.r.status === "PROCESSED");
    const may = last < 0 ? list : list.slice(0, last + 1);
    if (!t) {
      ctx.expect(last < 0, "device:lost", "a processed part was not stored", { k, data: list[last]?.r.data.slice(0, 1500) });
      continue;
    }
    ctx.observe("device-rows");
    if (list.length > 1) ctx.observe("overwritten");
    const match = may.filter((x) => !x.p.broken).find(({ p }) => same(p, t.datex2));
    const older = list.find(({ p }) => !p.broken && same(p, t.datex2));
    if (!match) {
      if (older) ctx.violation("device:stale", "an older document of a device replaced the newer one", { k, stored: t.datex2.slice(0, 500), newest: list[0].r.data.slice(0, 800) });
      else ctx.violation("device:content", "what is stored of a device is not what was sent", { k, stored: t.datex2.slice(0, 800), newest: list[0].r.data.slice(0, 1200) });
      continue;
    }
    if (match.p.effect !== undefined) ctx.equal(t.effect_date, match.p.effect, "device:effect", "the time from which a sign's data applies is wrong", { k });
  }
  for (const o of broker.opts) ctx.expect(o.protocol === "mqtts" && o.host === "broker.example" && o.port === 8883 && o.username === "mu" && o.password === "mp", "mqtt:connection", "the broker is not addressed as configured", { ...o });
  ctx.case({ index, n, rows: rows.length, table: table.length }, rows.some((r) => r.status !== "NEW"), { uploads: accepted.length, rows: rows.length, devices: table.length, published: broker.published.length, deliveries: q.invocations.length });
  if (rng.bool(0.3)) for (const [k, v] of Object.entries(q.functions)) conf.functions[k].module = v.module;
  else for (const k of Object.keys(q.functions)) conf.functions[k].module = undefined;
}
function same(p, stored) {
  if (p.text !== undefined) return stored === p.text;
  try {
    return JSON.stringify(canon(parse(stored))) === JSON.stringify(canon(p.node));
  } catch {
    return false;
  }
}
/** the situation element of a publication, however it is wrapped */
function situationOf(message) {
  try {
    return find(parse(message), "sit:situation")[0];
  } catch {
    const id = /<sit:situation\s[^>]*?\bid="([^"]*)"/.exec(message)?.[1];
    return id === undefined ? undefined : { attrs: { id } };
  }
}
function published(ctx, p, d, row, w) {
  ctx.observe("published");
  if (!d || d.rtti !== true) return ctx.violation("mqtt:newest", "nothing sound is stored of a published situation", { row });
  const about = { topic: p.topic, message: p.message.slice(0, 3000) };
  ctx.expect(p.topic === `traffic-message-v3/traffic-data/datex2-3.5/${d.srti ? "SRTI" : "RTTI"}`, "mqtt:topic", "a situation is published on the wrong topic", { ...about, srti: d.srti });
  let root;
  try {
    root = parse(p.message);
  } catch (e) {
    return ctx.violation("mqtt:well-formed", "what is published is not well-formed XML", { error: e.message, ...about });
  }
  const s = find(root, "sit:situation");
  ctx.expect(root.name === "d2:payload" && s.length === 1 && root.children.includes(s[0]), "mqtt:payload", "the publication is not a payload with one situation", about);
  if (s.length) ctx.equal(canon(s[0]), canon(d.node), "mqtt:content", "the published situation is not the newest one stored", { id: d.id });
  const t = find(root, "com:publicationTime").map((x) => Date.parse(x.children.join("")));
  ctx.expect(t.length === 1 && Math.abs(t[0] - p.at) < 60_000, "mqtt:time", "the publication does not say when it was published", { t, at: p.at });
  const declared = (n, scope) => {
    const here = new Set([...scope, ...Object.keys(n.attrs).filter((a) => a.startsWith("xmlns:")).map((a) => a.slice(6))]);
    for (const x of [n.name, ...Object.keys(n.attrs).filter((a) => !a.startsWith("xmlns"))]) if (x.includes(":") && !here.has(x.split(":")[0])) return x;
    for (const c of n.children) if (typeof c !== "string") {
      const bad = declared(c, here);
      if (bad) return bad;
    }
    return undefined;
  };
  const bad = declared(root, new Set(["xml"]));
  ctx.expect(!bad, "mqtt:namespaces", "the publication uses a prefix it does not declare", { bad, ...about });
  void row;
  void w;
}

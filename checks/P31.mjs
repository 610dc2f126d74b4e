// Passenger information: messages and stop monitoring pushed by the source system, what the
// public API shows of them, what is told about unknown delays and tracks, and what becomes
// of everything that could not be handled.
import { World } from "../harness/world.mjs";
import { SqlMy, myTime } from "../harness/sqlmy.mjs";
import { Queues, readQueues, url } from "../harness/queues.mjs";
import { Api, readRoutes } from "../harness/api.mjs";
import { template } from "./P24.mjs";

const APP = "rail/rami";
const MIN = 60_000;
const HOUR = 60 * MIN;
const DAY = 24 * HOUR;
const DDL = `
create table rami_message(id TEXT not null, version INTEGER not null, message_type TEXT not null, created_source DATETIME not null, start_validity DATETIME not null, end_validity DATETIME not null, train_number INTEGER, train_departure_date DATE, journey_ref TEXT, deleted DATETIME, primary key(id, version));
create table rami_message_station(rami_message_id TEXT not null, rami_message_version INTEGER not null, station_short_code TEXT not null);
create table rami_message_video(rami_message_id TEXT not null, rami_message_version INTEGER not null, text_fi TEXT, text_sv TEXT, text_en TEXT, delivery_type TEXT, start_date_time DATETIME, end_date_time DATETIME, start_time TIME, end_time TIME, days_of_week INTEGER);
create table rami_message_audio(rami_message_id TEXT not null, rami_message_version INTEGER not null, text_fi TEXT, text_sv TEXT, text_en TEXT, delivery_type TEXT, start_date_time DATETIME, end_date_time DATETIME, start_time TIME, end_time TIME, days_of_week INTEGER, event_type TEXT, delivery_at DATETIME, repetitions INTEGER, repeat_every INTEGER);
create table rami_stop_monitoring_message(rami_message_id TEXT not null, train_number INTEGER not null, train_departure_date DATE not null, message TEXT not null, created_db DATETIME);
create table rami_udot(train_number INTEGER not null, train_departure_date DATE not null, attap_id INTEGER not null, unknown_delay INTEGER not null, unknown_track INTEGER not null, model_updated_time DATETIME, created_db DATETIME, unique(train_departure_date, train_number, attap_id));
create trigger u_changed after update of unknown_delay, unknown_track on rami_udot when old.unknown_delay <> new.unknown_delay or old.unknown_track <> new.unknown_track begin update rami_udot set model_updated_time = null where rowid = new.rowid; end;
create table rami_udot_history(rami_message_id TEXT not null, train_number INTEGER not null, train_departure_date DATE not null, attap_id INTEGER not null, unknown_track INTEGER not null, unknown_delay INTEGER not null, created_db DATETIME);
create table time_table_row(attap_id INTEGER not null, train_number INTEGER not null, departure_date DATE not null, station_short_code TEXT not null, scheduled_time DATETIME not null, type INTEGER not null);
`;
const STATIONS = ["HKI", "PSL", "TKL", "TPE", "LH", "KV", "OL", "ROI", "TKU", "SK"];
const WEEK = ["MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"];
const LANG = { fi: "fi_FI", sv: "sv_SE", en: "en_GB" };
const sec = (t) => Math.floor(t / 1000) * 1000;
const iso = (t) => new Date(t).toISOString();
const date = (t) => iso(t).slice(0, 10);
const canon = (v) => JSON.stringify(v, (_, x) => (x && typeof x === "object" && !Array.isArray(x) ? Object.fromEntries(Object.entries(x).sort(([a], [b]) => (a < b ? -1 : 1))) : x));
/** a moment as the source may write it */
const written = (rng, t) => {
  const h = rng.pick([0, 0, 2, 3]);
  const s = iso(t + h * HOUR).slice(0, 19);
  return h ? `${s}+0${h}:00` : `${s}${rng.pick(["Z", "Z", ".000Z", "+00:00"])}`;
};
const uuid = (rng) => `${rng.digits(8)}-${rng.digits(4)}-4${rng.digits(3)}-8${rng.digits(3)}-${rng.digits(12)}`;

export default {
  id: "P31",
  rule: "A case is a history of messages, stop monitoring and queries with faults of the database, the queues and the bucket in between; non-trivial when something was shown or told.",
  assumptions: ["MySQL and mysql2 are stand-ins: the statements are executed by SQLite after translation; a deadlock ends the transaction of its victim.", "ajv is the installed one; its formats are a stand-in.", "SQS, middy and the API gateway are stand-ins with their documented semantics; redelivery is at once.", "A dead letter is looked for in the bucket after the queues are empty."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ uploads: 450, "uploads:invalid": 50, "uploads:odd": 25, shown: 350, queries: 650, "queries:bad": 110, "queries:fault": 40, "stop-monitoring": 400, "udot:changed": 450, "udot:cleared": 50, "udot:not-applied": 35, "dead-letters": 280, "deadlocks": 120, "cleanings": 60, deleted: 35, "newer-version": 55 })) ctx.require(k, n);
    const cfn = await template(APP, "rami-stack", "RamiStack", { dlqBucketName: "rami-dlq", secretId: "app-secret", stackFeatures: { enableCanaries: false } });
    const conf = readQueues(cfn, APP);
    const routes = readRoutes(cfn, conf);
    const w = await new World(undefined).open();
    const my = new SqlMy(DDL, { now: () => w.now });
    try {
      for (let i = 0; i < ctx.n(120, 1200); i++) {
        await history(ctx, ctx.rng.fork("h" + i), { w, my, cfn, conf, routes });
        await cleaning(ctx, ctx.rng.fork("c" + i), { w, my, cfn, conf });
        if (my.unsupported.length) throw new Error("unsupported SQL " + JSON.stringify(my.unsupported[0]));
      }
    } finally {
      await w.close();
    }
  },
};

function unchunk(b) {
  const parts = [];
  for (let i = 0; i < b.length; ) {
    const e = b.indexOf("\r\n", i);
    const n = Number.parseInt(b.subarray(i, e).toString().split(";")[0], 16);
    if (!n) break;
    parts.push(b.subarray(e + 2, e + 2 + n));
    i = e + 2 + n + 2;
  }
  return Buffer.concat(parts);
}
let containers;
function deploy(rng, { w, my, conf, routes }) {
  // warm containers most of the time
  if (!containers || rng.bool(0.12)) containers = Object.fromEntries(Object.entries(conf.functions).map(([k, v]) => [k, { ...v }]));
  w.reset();
  my.clear();
  w.secret({ DB_USER: "rami-user", DB_PASS: "rami-pass", DB_URI: "rami-db" });
  const q = new Queues({ ...conf, functions: containers }, { rng, tick: () => (w.now += rng.int(1, 400)) });
  q.baseEnv = Object.fromEntries(Object.entries(process.env).filter(([k]) => k.startsWith("AWS_")));
  const objects = new Map();
  const d = { q, objects, bucketFails: () => false, id: (name) => Object.values(conf.queues).find((x) => x.id.includes(name)).id, overwritten: 0 };
  w.aws = async (r) => {
    if (r.method !== "PUT" || r.target) return { status: 501 };
    if (d.bucketFails()) return { status: 403, body: "<Error><Code>AccessDenied</Code></Error>" };
    let body = r.body;
    if (/aws-chunked/.test(r.headers["content-encoding"] ?? "")) body = unchunk(body);
    const key = r.path.split("?")[0];
    if (objects.has(key)) d.overwritten++;
    objects.set(key, body.toString("utf8"));
    return { headers: { etag: '"x"' } };
  };
  if (routes) d.api = new Api(routes, (id) => q.load(id));
  return d;
}
/** the connections the functions hold when they are idle */
function idle(ctx, my, what) {
  ctx.expect(my.inUse === 0, "connection-leak", "a connection to the database is not given back", () => ({ what, inUse: my.inUse }));
  ctx.expect(!my.owner, "transaction-left", "a transaction is left open", () => ({ what }));
  if (my.inUse || my.owner) {
    // the next step starts from a clean state
    for (const p of my.pools) Object.assign(p, { count: 0, free: [], waiting: [] });
    if (my.owner) my.owner.undo();
    my.inUse = 0;
  }
}
/** whether the bucket holds this message */
function kept(objects, is) {
  const seen = (x) => {
    if (is(x)) return true;
    if (typeof x === "string" && /^\s*[[{]/.test(x))
      try {
        return seen(JSON.parse(x));
      } catch {
        return false;
      }
    return x && typeof x === "object" ? Object.values(x).some(seen) : false;
  };
  return [...objects.values()].some((o) => {
    try {
      return seen(JSON.parse(o));
    } catch {
      return false;
    }
  });
}

// ---- operator messages -----------------------------------------------------------------
function texts(rng, key) {
  const langs = rng.subset(["fi", "sv", "en"], 0.7);
  const say = {};
  const list = [];
  for (const l of langs) {
    const t = rng.pick(["Juna on my\u00f6h\u00e4ssä", "It's \"late\"", "t\u00e5get", "100 % \\ n", "a:b ?", rng.text(8)]) + rng.digits(2);
    list.push({ language: LANG[l], [key]: rng.bool(0.3) ? `  ${t}\n` : t });
    say[l] = t.trim();
    if (rng.bool(0.08)) list.push({ language: LANG[l], [key]: "again" });
  }
  if (rng.bool(0.2)) list.unshift({ language: rng.pick(["ru_RU", "fi", "xx"]), [key]: "other" });
  return { list, say };
}
const hm = (rng) => `${String(rng.int(0, 23)).padStart(2, "0")}:${String(rng.int(0, 59)).padStart(2, "0")}`;
const minutes = (s) => (s === undefined ? undefined : s.split(":").reduce((a, b) => a * 60 + Number(b), 0));
function rules(rng, now, audio) {
  const out = {};
  const model = {};
  const put = (k, v, mk = k, mv = v) => {
    if (rng.bool(0.15)) out[k] = null;
    else if (rng.bool(0.75)) {
      out[k] = v;
      model[mk] = mv;
    }
  };
  const [a, b, c] = [sec(now + rng.int(-50, 50) * HOUR + rng.int(0, 3600) * 1000), sec(now + rng.int(50, 500) * HOUR), sec(now + rng.int(-5000, 5000) * 1000)];
  const days = rng.subset(WEEK, 0.4);
  put("startTime", hm(rng));
  put("endTime", hm(rng));
  put("daysOfWeek", rng.shuffle(days), "weekDays", days);
  if (model.weekDays && !model.weekDays.length) delete model.weekDays; // every day
  const type = audio ? rng.pick(["NOW", "DELIVERY_AT", "REPEAT_EVERY"]) : rng.pick(["WHEN", "CONTINUOS_VISUALIZATION"]);
  out[audio ? "audioSchedulationType" : "videoSchedulationType"] = type;
  model.deliveryType = type;
  if (audio) {
    put("startDateTime", written(rng, a), "startDateTime", a);
    put("endDateTime", written(rng, b), "endDateTime", b);
    put("repetitions", rng.int(0, 5));
    put("repeatEvery", rng.int(1, 90));
    put("deliveryAtDateTime", written(rng, c), "deliveryAt", c);
  } else {
    out.startDateTime = rng.bool(0.2) ? null : written(rng, (model.startDateTime = a));
    out.endDateTime = rng.bool(0.2) ? null : written(rng, (model.endDateTime = b));
  }
  return { out, model };
}
function rosm(rng, now, { id, version, operation, created }) {
  const type = rng.pick(["SCHEDULED_MESSAGE", "SCHEDULED_MESSAGE", "MONITORED_JOURNEY_SCHEDULED_MESSAGE"]);
  const from = sec(now + rng.pick([-300, -20, -2, -1, 1, 3]) * HOUR + rng.int(0, 3600) * 1000);
  const to = sec(Math.max(from, now) + rng.pick([-30, 0, 1, 40]) * HOUR + rng.int(1, 3600) * 1000);
  const codes = rng.shuffle(rng.subset(STATIONS, 0.35));
  const points = codes.map((c) => ({ id: c, ...rng.pick([{}, { nameLong: c + " asema" }, { nameLong: null }]) }));
  const m = { id, version, type, created, from, to, stations: codes, operation };
  const payload = { messageId: id, messageVersion: version, title: rng.text(9), messageType: type, operation, creationDateTime: written(rng, created), startValidity: written(rng, from), endValidity: written(rng, to) };
  let odd = false;
  const contentType = rng.pick(["AUDIO", "VIDEO", "AUDIO_VIDEO"]);
  if (type === "SCHEDULED_MESSAGE") {
    if (rng.bool(0.3)) payload.monitoredJourneyScheduledMessage = null;
    const ground = { messageContentType: contentType, deliveryPoints: points };
    if (contentType !== "VIDEO") {
      const t = texts(rng, "text");
      const r = rules(rng, now, true);
      const file = rng.bool(0.15);
      ground.recipientAudioMessagesToDeliver = { audioContentType: file ? "AUDIO_FILE" : "AUDIO_TEXT", ...(file ? { media: "QUJD", ...rng.pick([{}, { audioText: null }]) } : { audioText: t.list, ...rng.pick([{}, { media: null }]) }), scheduledAudioDeliveryRules: r.out };
      if (!file) m.audio = { text: t.say, rules: r.model };
    } else if (rng.bool(0.4)) ground.recipientAudioMessagesToDeliver = null;
    if (contentType !== "AUDIO") {
      const t = texts(rng, "text");
      const r = rng.bool(0.85) ? rules(rng, now, false) : { out: null, model: {} };
      ground.recipientVideoMessagesToDeliver = { videoTexts: t.list, deliveryRules: r.out };
      m.video = { text: t.say, rules: r.model };
    }
    payload.scheduledMessage = { deliveryChannels: rng.pick([null, ["ONGROUND"], ["ONGROUND", "EXTERNAL"]]), ...rng.pick([{}, { situations: null }, { situations: [{ id: "1", name: "x" }] }]), onGroundRecipient: ground };
    if (rng.bool(0.06)) {
      if (rng.bool(0.5)) payload.scheduledMessage.onGroundRecipient = null;
      else delete payload.scheduledMessage.onGroundRecipient;
      delete m.audio;
      delete m.video;
      m.stations = [];
    } else if (rng.bool(0.08)) {
      odd = true;
      rng.pick([() => points.push(null), () => (ground.recipientAudioMessagesToDeliver = { audioContentType: "AUDIO_TEXT", audioText: [], scheduledAudioDeliveryRules: null }), () => (ground.recipientVideoMessagesToDeliver = { videoTexts: [null], deliveryRules: null })])();
    }
  } else {
    if (rng.bool(0.3)) payload.scheduledMessage = null;
    const train = rng.int(1, 60);
    const day = date(now + rng.int(-1, 2) * DAY);
    const j = { vehicleJourney: { datedVehicleJourneyRef: day.replaceAll("-", "") + train, dataFrameRef: day, vehicleJourneyName: String(train) }, messageContentType: contentType, deliveryPoints: points };
    if (rng.bool(0.1)) j.vehicleJourney = null;
    else Object.assign(m, { train, day });
    if (contentType !== "VIDEO") {
      const t = texts(rng, "audioText");
      const d = rng.pick(["ON_EVENT", "ON_SCHEDULE", null]);
      const r = { ...(rng.bool(0.5) ? { repetitions: rng.int(1, 4) } : {}), ...(rng.bool(0.5) ? { repeatEvery: rng.int(1, 60) } : {}), ...(rng.bool(0.5) ? { eventType: rng.pick(["ARRIVING", "DEPARTING"]) } : {}) };
      j.audioMessageContents = { audioTexts: t.list, deliveryRules: rng.bool(0.9) ? { ...r, ...(rng.bool(0.4) ? { scheduledArrival: true, estimatedArrival: null } : {}) } : null, deliveryType: d };
      m.audio = { text: t.say, rules: { ...(j.audioMessageContents.deliveryRules ? r : {}), ...(d ? { deliveryType: d } : {}) } };
    } else if (rng.bool(0.3)) j.audioMessageContents = null;
    if (contentType !== "AUDIO") {
      const t = texts(rng, "videoText");
      j.videoTexts = t.list;
      m.video = { text: t.say, rules: {} };
    } else if (rng.bool(0.3)) j.videoTexts = null;
    payload.monitoredJourneyScheduledMessage = j;
    if (rng.bool(0.06)) {
      odd = true;
      points.push(null);
    }
  }
  const body = { headers: { e2eId: uuid(rng), source: "Pis", ...rng.pick([{}, { organisation: "A" }, { partitionKey: null }]), eventType: rng.pick([null, "x"]), recordedAtTime: written(rng, now) }, payload, ...rng.pick([{}, {}, { extraPayload: null }, { extraPayload: {} }]) };
  let invalid = false;
  if (rng.bool(0.12)) {
    invalid = true;
    rng.pick([() => delete payload.messageId, () => (payload.messageVersion = 0), () => (payload.operation = "REMOVE"), () => (body.more = 1), () => (payload.creationDateTime = "yesterday"), () => (payload.title = "x".repeat(256)), () => delete body.headers, () => (payload.messageVersion = "1"), () => (payload.messageType = null), () => (body.headers.e2eId = "no-uuid")])();
  }
  return { body, model: m, odd, invalid };
}
/** how the public API shows a message */
function shown(m) {
  const part = (p) => p && Object.values(p.text).some((t) => t) && { text: p.text, rules: clean({ ...p.rules, startTime: minutes(p.rules.startTime), endTime: minutes(p.rules.endTime) }) };
  return clean({ id: m.id, version: m.version, created: m.created, from: m.from, to: m.to, train: m.train, day: m.day, stations: m.stations.toSorted(), audio: part(m.audio) || undefined, video: part(m.video) || undefined });
}
const clean = (o) => Object.fromEntries(Object.entries(o).filter(([, v]) => v !== undefined && v !== ""));
/** what the API said, in the same terms */
function said(x) {
  const part = (p) => {
    if (!p) return undefined;
    const r = p.deliveryRules ?? {};
    const at = (t) => (t === undefined ? undefined : Date.parse(t));
    return { text: clean(p.text ?? {}), rules: clean({ ...r, startTime: minutes(r.startTime), endTime: minutes(r.endTime), startDateTime: at(r.startDateTime), endDateTime: at(r.endDateTime), deliveryAt: at(r.deliveryAt) }) };
  };
  const { id, version, creationDateTime, startValidity, endValidity, stations, trainNumber, trainDepartureDate, audio, video, ...more } = x;
  return clean({ id, version, created: Date.parse(creationDateTime), from: Date.parse(startValidity), to: Date.parse(endValidity), train: trainNumber, day: trainDepartureDate, stations: (stations ?? []).toSorted(), audio: part(audio), video: part(video), ...more });
}

async function history(ctx, rng, env) {
  const { w, my } = env;
  w.now = Date.UTC(2024, rng.int(0, 11), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59), rng.int(0, 59));
  const d = deploy(rng, env);
  const { q, api } = d;
  const faults = { hits: 0, rate: 0, sends: 0, sent: 0, bucket: 0 };
  my.fault = (kind, sql) => {
    if (kind === "rollback" || !faults.rate || !rng.bool(faults.rate)) return undefined;
    faults.hits++;
    const f = rng.pick([{ code: "ER_LOCK_DEADLOCK", message: "Deadlock found when trying to get lock; try \"restarting\" transaction" }, { code: "ER_LOCK_WAIT_TIMEOUT", message: "Lock wait timeout exceeded" }, { destroy: true }]);
    if (f.code === "ER_LOCK_DEADLOCK") ctx.observe("deadlocks");
    void sql;
    return f;
  };
  q.sendFails = () => faults.sends > 0 && rng.bool(faults.sends) && ++faults.sent > 0;
  d.bucketFails = () => faults.bucket > 0 && rng.bool(faults.bucket);
  const said0 = { messages: new Map() }; // id -> [model, deleted]
  const versions = said0.messages;
  let next = 1;
  let show = 0;
  const trains = timetable(rng, w, my);
  const udot = new Map(); // train -> Map(attap -> [delay, track])
  for (let round = 0; round < 4; round++) {
    w.now += rng.int(1, 90) * MIN;
    faults.rate = rng.pick([0, 0, 0.06, 0.15]);
    faults.sends = rng.pick([0, 0, 0, 0.15]);
    faults.bucket = rng.pick([0, 0, 0.3]);
    // operator messages
    const pushed = [];
    const touched = new Set();
    for (let k = rng.int(1, 4); k > 0; k--) {
      const old = [...versions.keys()].filter((id) => !touched.has(id));
      const again = old.length && rng.bool(0.5);
      const id = again ? rng.pick(old) : `M${next++}-${rng.word(2, 4)}`;
      touched.add(id);
      const have = versions.get(id) ?? [];
      const version = Math.max(0, ...have.map((x) => x.model.version)) + rng.pick([1, 1, 2, 9]);
      const operation = !have.length ? "INSERT" : rng.bool(0.35) ? "DELETE" : "UPDATE";
      const older = operation === "UPDATE" && have.length > 1 && rng.bool(0.2);
      const free = older ? Array.from({ length: version }, (_, i) => i + 1).filter((v) => !have.some((h) => h.model.version === v)) : [];
      const m = rosm(rng, w.now, { id, version: free.length ? rng.pick(free) : version, operation, created: sec(w.now) - rng.int(0, 50) * (rng.bool(0.5) ? 1000 : MIN) });
      faults.sent = 0;
      const r = await api.call("POST", "/api/v1/rami/incoming/message", { body: JSON.stringify(m.body) });
      ctx.expect(r.route?.key === true, "upload:key", "a message can be put in without an API key", {});
      const witness = () => ({ status: r.status, error: String(r.error ?? r.text), message: m.body });
      if (faults.sent) {
        ctx.expect(r.status !== 200, "upload:lost", "a message that could not be queued is accepted", witness);
        continue;
      }
      if (!ctx.expect(r.status === 200, "upload:refused", "a message is not accepted", witness)) continue;
      ctx.observe("uploads");
      if (m.invalid) ctx.observe("uploads:invalid");
      else if (m.odd) ctx.observe("uploads:odd");
      pushed.push(m);
    }
    // stop monitoring
    const stops = [];
    const running = rng.shuffle([...trains.values()]).slice(0, rng.int(1, 3));
    for (const t of running) {
      const s = stopMonitoring(rng, w.now, t);
      const body = s.broken ?? JSON.stringify(s.body);
      q.put(d.id("SmSqs"), body);
      ctx.observe("stop-monitoring");
      stops.push({ ...s, train: t, text: body });
    }
    const rows0 = new Map(running.map((t) => [t, udotRows(my, t)]));
    faults.sent = 0;
    for (let k = 0; k < 3; k++) await q.drain({ limit: 60 });
    Object.assign(faults, { rate: 0, sends: 0, bucket: 0 });
    const hits = faults.hits + faults.sent;
    faults.hits = 0;
    const empty = await q.drain({ limit: 400 });
    ctx.expect(empty, "queues:stuck", "the queues do not run empty", () => ({ waiting: [...q.ready].map(([k, v]) => [k, v.length]) }));
    idle(ctx, my, "queues");
    for (const [k, o] of d.objects)
      try {
        JSON.parse(o);
      } catch {
        ctx.violation("dead-letter:json", "a dead letter is not kept as JSON", { key: k, object: o.slice(0, 300) });
      }
    ctx.expect(!d.overwritten, "dead-letter:overwritten", "a dead letter replaced another", {});
    for (const m of pushed) {
      const dead = kept(d.objects, (x) => x && typeof x === "object" && canon(x) === canon(m.body));
      if (dead) ctx.observe("dead-letters");
      const witness = () => ({ hits, odd: m.odd, dead, model: m.model, message: m.body, objects: [...d.objects].slice(-3) });
      const { id, version, operation } = m.model;
      const row = my.all("select * from rami_message where id = ? and version = ?", id, version)[0];
      if (m.invalid) {
        ctx.expect(dead, "message:invalid-lost", "a message that is not valid is not kept as a dead letter", witness);
        ctx.expect(!row, "message:invalid-stored", "a message that is not valid is shown", witness);
        continue;
      }
      if (operation === "DELETE") {
        const rows = my.all("select deleted from rami_message where id = ? order by version desc", id);
        const gone = rows[0]?.deleted !== null;
        ctx.expect(gone || dead, "message:not-deleted", "a message that is to be deleted is neither deleted nor kept as a dead letter", witness);
        if (!hits && !m.odd) ctx.expect(gone, "message:delete-failed", "a message was not deleted", witness);
        if (gone) {
          for (const v of versions.get(id)) v.deleted = true;
          ctx.observe("deleted");
        }
        continue;
      }
      ctx.expect(row || dead, "message:lost", "a message is neither stored nor kept as a dead letter", witness);
      if (!m.model.stations.length) {
        ctx.expect(!row, "message:no-station", "a message without stations is stored in part", witness);
        continue;
      }
      if (!hits && !m.odd) ctx.expect(row, "message:not-stored", "a message that is valid was not stored", witness);
      if (!row) continue;
      if (m.odd) {
        // whatever it was taken for, it is out of the way now
        my.db.exec(`update rami_message set deleted = created_source where id = '${id}'`);
        for (const v of versions.get(id) ?? []) v.deleted = true;
        versions.set(id, [...(versions.get(id) ?? []), { model: m.model, deleted: true }]);
        continue;
      }
      if (versions.has(id)) ctx.observe("newer-version");
      versions.set(id, [...(versions.get(id) ?? []), { model: m.model, deleted: false }]);
    }
    for (const s of stops) checkStop(ctx, my, d, s, hits, rows0.get(s.train));
    // the model of the trains is updated somewhere else
    if (rng.bool(0.5)) my.db.exec(`update rami_udot set model_updated_time = '${myTime(sec(w.now))}' where (attap_id + ${round}) % 2 = 0`);
    for (let k = rng.int(2, 5); k > 0; k--) {
      faults.rate = rng.bool(0.08) ? 1 : 0;
      show += await query(ctx, rng, w, my, api, versions, faults, trains);
      faults.rate = 0;
    }
  }
  void udot;
  ctx.case(canon([...versions].map(([id, v]) => [id, v.map((x) => [x.model, x.deleted])])), show > 0);
}

async function query(ctx, rng, w, my, api, versions, faults, trains) {
  w.now += rng.int(1, 3000);
  const newest = [...versions.values()].map((v) => v.toSorted((a, b) => b.model.version - a.model.version)[0]).filter((x) => !x.deleted).map((x) => x.model);
  const p = new URLSearchParams();
  let keep = () => true;
  const also = (f) => {
    const g = keep;
    keep = (m) => g(m) && f(m);
  };
  const after = rng.bool(0.5);
  const some = rng.pick([...newest, undefined]);
  let bad = false;
  if (rng.bool(0.25)) {
    const n = some?.train ?? rng.int(1, 60);
    p.set("train_number", String(n));
    also((m) => m.train === n);
  }
  if (rng.bool(0.2)) {
    const day = some?.day ?? date(w.now);
    p.set("train_departure_date", day);
    also((m) => m.day === day);
  }
  if (rng.bool(0.3)) {
    const st = some ? (rng.pick(some.stations) ?? "HKI") : rng.pick(STATIONS);
    p.set("station", st);
    also((m) => m.stations.includes(st));
  }
  if (rng.bool(0.3)) {
    const g = rng.pick(["true", "false", ""]);
    p.set("only_general", g);
    if (g === "true") also((m) => m.type === "SCHEDULED_MESSAGE");
  }
  if (rng.bool(0.15)) {
    bad = true;
    rng.pick([() => p.set("train_number", rng.pick(["abc", "0", "-3"])), () => p.set("train_departure_date", rng.pick(["1.2.2024", "2024-1-1", "x2024-01-01"])), () => p.set("station", "H"), () => p.set("only_general", rng.pick(["yes", "1", "TRUE"]))])();
  }
  let path = "/api/v1/passenger-information/active";
  let active = true;
  if (after) {
    const t = some && rng.bool(0.7) ? some.created + rng.pick([-1, 0, 0, 1, 20, -20, -60, 60]) * 1000 : sec(w.now) - rng.int(0, 3000) * MIN;
    if (rng.bool(0.1)) {
      bad = true;
      path = `/api/v1/passenger-information/updated-after/${rng.pick(["yesterday", "2024-13-45", "12h"])}`;
    } else if (rng.bool(0.2)) {
      path = `/api/v1/passenger-information/updated-after/${date(t)}`;
      also((m) => m.created >= Date.parse(date(t)));
    } else {
      path = `/api/v1/passenger-information/updated-after/${encodeURIComponent(iso(t))}`;
      also((m) => m.created >= t);
    }
    if (rng.bool(0.5)) {
      const a = rng.pick(["true", "false", "false"]);
      p.set("only_active", a);
      active = a === "true";
    }
  }
  if (active) also((m) => m.from <= sec(w.now) && m.to > sec(w.now));
  const hits = faults.hits;
  const r = await api.call("GET", `${path}${p.size ? "?" + p : ""}`);
  ctx.observe("queries");
  const witness = () => ({ url: `${path}?${p}`, now: iso(w.now), status: r.status, text: r.text.slice(0, 300), error: String(r.error ?? "") });
  ctx.expect(r.route?.key === true, "query:key", "messages are shown without an API key", witness);
  idle(ctx, my, "query");
  if (bad) {
    ctx.observe("queries:bad");
    ctx.expect(r.status === 400, "query:bad", "a query that makes no sense is not refused as such", witness);
    return 0;
  }
  if (faults.hits > hits) {
    ctx.observe("queries:fault");
    ctx.expect(r.status >= 500, "query:fault", "a query that failed looks like one that found nothing", witness);
    return 0;
  }
  if (!ctx.expect(r.status === 200 && !r.error, "query:error", "a query is not answered", witness)) return 0;
  const got = JSON.parse(r.text).map(said);
  const want = newest.filter(keep).map(shown);
  const byId = (a, b) => (a.id < b.id ? -1 : 1);
  ctx.equal(got.map((x) => [x.id, x.version]).toSorted(), want.map((x) => [x.id, x.version]).toSorted(), "query:which", "other messages are shown than those asked for", () => ({ ...witness(), newest: newest.map((m) => ({ ...m, from: iso(m.from), to: iso(m.to), created: iso(m.created) })) }));
  const two = want.toSorted(byId);
  for (const g of got.toSorted(byId)) {
    const x = two.find((y) => y.id === g.id && y.version === g.version);
    if (x) ctx.equal(JSON.parse(canon(g)), JSON.parse(canon(x)), "query:content", "a message is not shown as it was put in", witness);
  }
  ctx.observe("shown", got.length);
  return got.length;
}

// ---- stop monitoring ---------------------------------------------------------------------
function timetable(rng, w, my) {
  const trains = new Map();
  for (let k = 0; k < 4; k++) {
    const n = k * 1000 + rng.int(1, 999);
    const day = date(w.now + rng.int(-1, 1) * DAY);
    const calls = [];
    let t = Math.floor(w.now / MIN) * MIN;
    const rows = [];
    for (const [i, st] of rng.shuffle(STATIONS).slice(0, rng.int(2, 6)).entries()) {
      const c = { st };
      t += rng.int(2, 40) * MIN;
      const add = (type) => {
        const row = { attap_id: (k + 1) * 100_000 + rows.length * 7 + 1, train_number: n, departure_date: day, station_short_code: st, scheduled_time: myTime(t + rng.pick([0, 0, 30]) * 1000), type };
        rows.push(row);
        return { at: t, attap: row.attap_id };
      };
      if (i) c.arrival = add(0);
      t += rng.pick([0, 1, 3]) * MIN;
      c.departure = add(1);
      calls.push(c);
    }
    const known = rng.bool(0.85);
    if (known) my.insert("time_table_row", rng.shuffle(rows));
    trains.set(n, { n, day, calls, known });
  }
  return trains;
}
function stopMonitoring(rng, now, t) {
  const data = [];
  const local = (at) => iso(at + rng.pick([0, 0, 15]) * 1000).slice(0, 19) + rng.pick(["", "", "Z"]);
  const call = (c) => {
    const boards = rng.bool(0.85);
    const miss = rng.bool(0.06) ? rng.pick([-1, 1]) * MIN : 0;
    const [ud0, ut0, ud1, ut1] = rng.array(4, () => rng.bool(0.4));
    const quay = (unknown) => ({ ...(rng.bool(0.5) ? { aimedQuayName: "1" } : {}), ...(unknown ? {} : { expectedQuayName: rng.pick(["1", "10a"]) }) });
    const o = { arrivalStopAssignment: quay(ut0), departureStopAssignment: quay(ut1), departureBoardingActivity: boards ? "boarding" : rng.pick(["noBoarding", "passThru"]), stopPointRef: c.st, order: 1, visitNumber: 1 };
    if (c.arrival) {
      o.aimedArrivalTime = local(c.arrival.at + miss);
      if (!ud0) o.expectedArrivalTime = local(c.arrival.at + 5 * MIN);
      if (boards && !miss) data.push([c.arrival.attap, ud0, ut0]);
    }
    if (rng.bool(0.9) || !c.arrival) {
      o.aimedDepartureTime = local(c.departure.at + miss);
      if (!ud1) o.expectedDepartureTime = local(c.departure.at + 5 * MIN);
      if (boards && !miss) data.push([c.departure.attap, ud1, ut1]);
    }
    return o;
  };
  const from = rng.int(0, t.calls.length - 1);
  const bus = rng.bool(0.1);
  const e2e = uuid(rng);
  const journey = { monitoredCall: call(t.calls[from]), onwardCalls: t.calls.slice(from + 1).map(call), vehicleJourneyName: `${t.day.replaceAll("-", "")}1${String(t.n).padStart(5, "0")}${bus ? "BUS" : ""}`, monitored: true };
  const body = { headers: { e2eId: e2e, source: "x", eventType: "StopMonitoringMessage", recordedAtTime: iso(now) }, payload: { monitoredStopVisits: [{ monitoringRef: "PSL", monitoredVehicleJourney: journey }] } };
  let broken;
  if (rng.bool(0.12)) broken = rng.pick([() => `not json ${e2e}`, () => JSON.stringify({ ...body, payload: { monitoredStopVisits: [], was: e2e } }), () => JSON.stringify({ ...body, payload: { monitoredStopVisits: [{ monitoredVehicleJourney: { ...journey, vehicleJourneyName: "1234", e2e } }] } }), () => JSON.stringify({ ...body, what: "\"" + e2e })])();
  return { body, broken, e2e, bus, data: t.known && !bus ? data : [] };
}
const udotRows = (my, t) => new Map(my.all("select attap_id, unknown_delay, unknown_track from rami_udot where train_number = ? and train_departure_date = ?", t.n, t.day).map((r) => [r.attap_id, [!!r.unknown_delay, !!r.unknown_track]]));
function checkStop(ctx, my, d, s, hits, before) {
  const dead = kept(d.objects, (x) => (typeof x === "string" && x.includes(s.e2e)));
  const now = udotRows(my, s.train);
  const stored = my.all("select * from rami_stop_monitoring_message where rami_message_id = ?", s.e2e);
  const past = my.all("select attap_id, unknown_delay d, unknown_track t from rami_udot_history where rami_message_id = ?", s.e2e);
  if (dead) ctx.observe("dead-letters");
  const flat = (m) => [...m].sort(([a], [b]) => a - b);
  const witness = () => ({ hits, dead, e2e: s.e2e, train: [s.train.n, s.train.day], data: s.data, before: flat(before), now: flat(now), message: s.text.slice(0, 1500), past });
  if (s.broken) {
    ctx.expect(dead, "stop:invalid-lost", "stop monitoring that makes no sense is not kept as a dead letter", witness);
    ctx.equal(flat(now), flat(before), "stop:invalid-applied", "stop monitoring that makes no sense was applied", witness);
    return;
  }
  const after = new Map(before);
  const changed = [];
  for (const [a, ud, ut] of s.data) {
    if (!ud && !ut && !after.has(a)) continue;
    if (canon(after.get(a)) !== canon([ud, ut])) changed.push([a, ud, ut]);
    if (!ud && !ut && canon(after.get(a)) !== canon([ud, ut])) ctx.observe("udot:cleared");
    after.set(a, [ud, ut]);
  }
  const applied = canon(flat(now)) === canon(flat(after));
  ctx.expect(applied || canon(flat(now)) === canon(flat(before)), "udot:part", "what is known of a train was updated in part", () => ({ ...witness(), after: flat(after) }));
  ctx.expect(applied || dead, "udot:lost", "what is known of a train was neither updated nor kept as a dead letter", () => ({ ...witness(), after: flat(after) }));
  if (!hits) ctx.expect(applied, "udot:not-applied", "what is known of a train was not updated", () => ({ ...witness(), after: flat(after) }));
  if (!applied) ctx.observe("udot:not-applied");
  ctx.expect(stored.length || dead, "stop:lost", "stop monitoring is neither stored nor kept as a dead letter", witness);
  if (!hits) ctx.expect(stored.length === 1, "stop:stored", "stop monitoring is not stored once", witness);
  for (const r of stored) ctx.expect(r.message === s.text && r.train_number === s.train.n && r.train_departure_date === s.train.day, "stop:content", "stop monitoring is not stored as it was told", () => ({ ...witness(), r }));
  if (applied && changed.length) {
    ctx.observe("udot:changed", changed.length);
    for (const [a, ud, ut] of changed) ctx.expect(past.filter((h) => h.attap_id === a && !!h.d === ud && !!h.t === ut).length === 1, "udot:history", "a change is not recorded once", witness);
  }
  ctx.expect(past.every((h) => s.data.some(([a, ud, ut]) => a === h.attap_id && ud === !!h.d && ut === !!h.t) && after.has(h.attap_id)), "udot:history-extra", "something is recorded that was not told", witness);
  if (!applied) ctx.expect(!past.length, "udot:history-part", "a change is recorded that was not made", witness);
}

// ---- what is old ---------------------------------------------------------------------------
async function cleaning(ctx, rng, env) {
  const { w, my, cfn } = env;
  w.now = Date.UTC(2024, rng.int(0, 11), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59), rng.int(0, 59));
  const d = deploy(rng, { ...env, routes: undefined });
  const off = () => rng.pick([-1, 1, -60, 60, -3600, 3600, -86400, 86400 - 1]);
  const at = () => w.now - DAY + off() * 1000;
  const T = { rami_udot: [], rami_udot_history: [], rami_stop_monitoring_message: [] };
  for (let i = rng.int(1, 6); i > 0; i--) T.rami_udot.push({ train_number: i, train_departure_date: "2024-01-01", attap_id: i, unknown_delay: 1, unknown_track: 0, t: at() });
  for (let i = rng.int(1, 6); i > 0; i--) T.rami_udot_history.push({ rami_message_id: "m" + i, train_number: i, train_departure_date: "2024-01-01", attap_id: i, unknown_delay: 1, unknown_track: 0, t: at() });
  for (let i = rng.int(1, 6); i > 0; i--) T.rami_stop_monitoring_message.push({ rami_message_id: "m" + i, train_number: i, train_departure_date: "2024-01-01", message: "{}", t: at() });
  for (const [k, rows] of Object.entries(T)) my.insert(k, rows.map(({ t, ...r }) => ({ ...r, created_db: myTime(t) })));
  let countdown = rng.bool(0.35) ? rng.int(0, 5) : -1;
  let hits = 0;
  if (countdown >= 0) my.fault = (kind) => (kind === "rollback" || hits || countdown-- > 0 ? undefined : (hits++, rng.pick([{ code: "ER_LOCK_DEADLOCK" }, { code: "ER_LOCK_WAIT_TIMEOUT" }, { destroy: true }])));
  const id = Object.values(d.q.functions).find((f) => f.wanted.includes("/delete-old-data/")).id;
  ctx.expect(cfn.of("AWS::Events::Rule").some(([, r]) => JSON.stringify(r.Properties.Targets ?? []).includes(`"${id}"`)), "cleaning:schedule", "what is old is never deleted", {});
  let error;
  try {
    await (await d.q.load(id))();
  } catch (e) {
    error = e;
  }
  my.fault = () => undefined;
  idle(ctx, my, "cleaning");
  const left = (k) => my.all(`select train_number n from ${k} order by 1`).map((r) => r.n);
  const all = Object.keys(T).map(left);
  const witness = () => ({ hits, error: String(error ?? ""), rows: Object.entries(T).map(([k, r]) => [k, r.map((x) => [x.train_number, (x.t - w.now + DAY) / 1000])]) });
  ctx.observe("cleanings");
  if (hits) {
    ctx.expect(error, "cleaning:silent", "a cleaning that failed goes unnoticed", witness);
    ctx.equal(all, Object.values(T).map((r) => r.map((x) => x.train_number).sort((a, b) => a - b)), "cleaning:part", "a cleaning that failed was done in part", witness);
    return;
  }
  ctx.expect(!error, "cleaning:error", "the cleaning failed", witness);
  ctx.equal(all, Object.values(T).map((r) => r.filter((x) => x.t >= w.now - DAY).map((x) => x.train_number).sort((a, b) => a - b)), "cleaning:which", "not what is older than a day is deleted", witness);
}
void url;

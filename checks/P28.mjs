// Variable signs: documents and metadata put in through the integration API, and what the
// public API publishes of them; sign images drawn from texts. Everything goes through the
// methods of the synthesized APIs.
import { World } from "../harness/world.mjs";
import { Queues, readQueues } from "../harness/queues.mjs";
import { Api, readRoutes } from "../harness/api.mjs";
import { el, render, parse, canon, find } from "../harness/xmlmini.mjs";
import { template } from "./P24.mjs";

const APP = "road/variable-signs";
const TS = (c, more = "") => `${c} TIMESTAMPTZ ${more} check(${c} is null or typeof(${c}) = 'integer')`;
const DDL = `
create table device(id TEXT primary key, modified TIMESTAMPTZ, ${TS("deleted_date")}, type TEXT not null, road_address TEXT not null, direction TEXT, carriageway TEXT, etrs_tm35fin_x NUMERIC, etrs_tm35fin_y NUMERIC);
create table device_data_datex2(device_id TEXT not null, version TEXT not null, type TEXT not null, datex2 TEXT not null, ${TS("effect_date", "not null")}, modified TIMESTAMPTZ, unique(device_id, version, type));
create trigger dd_i after insert on device_data_datex2 when new.modified is null begin update device_data_datex2 set modified = now() where rowid = new.rowid; end;
create trigger dd_u after update of datex2, effect_date on device_data_datex2 begin update device_data_datex2 set modified = now() where rowid = new.rowid; end;
create table device_data(id INTEGER primary key, device_id TEXT not null, display_value TEXT, additional_information TEXT, ${TS("effect_date", "not null")}, cause TEXT, reliability TEXT not null);
create table device_data_row(id INTEGER primary key, device_data_id INTEGER not null, screen INTEGER not null, row_number INTEGER not null, text TEXT);
create table data_updated(id INTEGER primary key, data_type TEXT not null, subtype TEXT not null default '-', ${TS("updated", "not null")}, unique(data_type, subtype));
`;
const V1 = "/api/variable-sign/v1";
const READS = [
  { url: `${V1}/signs.datex2`, version: "DATEXII_2_2_3", type: "SITUATION" },
  ...["5", "7"].flatMap((n) => [
    { url: `${V1}/signs/datex2-3.${n}.xml`, version: `DATEXII_3_${n}`, type: "SITUATION" },
    { url: `${V1}/statuses/datex2-3.${n}.xml`, version: `DATEXII_3_${n}`, type: "CONTROLLER_STATUS" },
    { url: `${V1}/controllers/datex2-3.${n}.xml`, version: `DATEXII_3_${n}`, type: "CONTROLLER" },
  ]),
];
const TAG = { SITUATION: ["sit", "situation"], CONTROLLER_STATUS: ["vms", "vmsControllerStatus"], CONTROLLER: ["vms", "vmsController"] };
const ROOT = { SITUATION: ["sit:situationPublication"], CONTROLLER_STATUS: ["d2:payload", "vms:VmsPublication"], CONTROLLER: ["d2:payload", "vms:VmsTablePublication"] };
const TEST_DEVICES = ["VME/TIO01K502", "VME/TIO01K500", "VME/TIO015111", "VME/TIO015152"];
const NIGHTS = [20, 21].map((d) => [Date.UTC(2024, 4, d, 19), Date.UTC(2024, 4, d + 1, 2)]);
const XSI = { "xmlns:xsi": "http://www.w3.org/2001/XMLSchema-instance" };
const NS = { "xmlns:com": "http://datex2.eu/schema/3/common" };

export default {
  id: "P28",
  rule: "A case is one history of documents, metadata and queries, or one text asked as an image; non-trivial when something was shown.",
  assumptions: ["SQL is executed by SQLite after translation; the modification time of a document is set by a trigger like the database's.", "Documents of the data upload arrive straight in the table.", "The XML parser of the filtering is replaced by a strict stand-in."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ reads: 1400, "reads:empty": 100, shown: 1800, "prefix-added": 300, "test-message-hidden": 60, "test-device-shown": 60, "deleted-hidden": 400, "reader-errors": 25, "put:datex2": 70, "put:data": 70, "put:metadata": 130, "put:refused": 90, "put:failed": 45, "rows-written": 90, "devices-added": 200, "devices-returned": 35, "devices-removed": 70, images: 500, "images:refused": 700, "images:bordered": 250, "images:single": 80, "glyph-compared": 2500 })) ctx.require(k, n);
    const cfn = await template(APP, "variable-signs-cdk-stack", "VariableSignsCdkStack", { enableDatexII35: true, enableDatexII37: true, secretId: "app-secret" });
    const conf = readQueues(cfn, APP);
    const routes = readRoutes(cfn, conf);
    const w = await new World(DDL, { readers: true }).open();
    const real = String.prototype.indexOf;
    try {
      for (let i = 0; i < ctx.n(110, 1400); i++) {
        await history(ctx, w, conf, routes, i);
        if (w.sql.unsupported.length) throw new Error("unsupported SQL " + JSON.stringify(w.sql.unsupported[0]));
      }
      await images(ctx, w, conf, routes);
    } finally {
      String.prototype.indexOf = real;
      await w.close();
    }
  },
};
function apiOf(w, conf, routes, rng) {
  const q = new Queues({ ...conf, functions: Object.fromEntries(Object.entries(conf.functions).map(([k, v]) => [k, { ...v }])) }, { rng });
  q.baseEnv = Object.fromEntries(Object.entries(process.env).filter(([k]) => k.startsWith("AWS_")));
  const api = new Api(routes, (id) => q.load(id));
  api.done = () => {
    // some containers stay warm for the next history
    for (const k of Object.keys(q.functions)) conf.functions[k].module = rng.bool(0.5) ? q.functions[k].module : undefined;
  };
  return api;
}

// ---- documents -----------------------------------------------------------------------
const TEXTS = ["slippery", "$& $1 $' $`", "\u00e4\u00f6 & <tie>", "\"quoted\" 'text'", "SITUATIONS", "STATUSES CONTROLLERS", "  spaced  ", "PUBLICATION_TIME"];
const offset = (t, h) => new Date(t + h * 36e5).toISOString().replace("Z", `+0${h}:00`);
function times(rng, w, id) {
  if (TEST_DEVICES.includes(id) && rng.bool(0.85)) {
    const [a, b] = rng.pick(NIGHTS);
    return rng.pick([a, a - 1, a + 1, b, b - 1, (a + b) / 2, NIGHTS[0][1] + 36e5, a - 864e5, b + 864e5]);
  }
  return rng.bool(0.1) ? rng.pick(NIGHTS)[0] + 36e5 : w.now - rng.int(-100, 10000) * 1000;
}
const body = (rng, n) => [el("overallSeverity", {}, rng.pick(["high", "low"])), el("comment", {}, `${rng.pick(TEXTS)} n${n}`), ...rng.array(rng.int(0, 2), (i) => el("speed", { index: String(i), note: rng.pick(TEXTS) }, String(rng.int(20, 120))))];
/** the text of one device, as it is stored: {text, effect, hidden} */
function part(rng, w, id, version, type, n) {
  const at = times(rng, w, id);
  const when = rng.bool(0.7) ? new Date(at).toISOString() : offset(at, rng.pick([2, 3]));
  const pad = rng.bool(0.5) ? (d) => "\n" + "  ".repeat(d) : undefined;
  const hidden = type === "SITUATION" && TEST_DEVICES.includes(id) && NIGHTS.some(([a, b]) => a <= at && at < b);
  if (version === "DATEXII_2_2_3") return { text: render(el("situation", { id, version: String(n) }, body(rng, n), el("situationRecord", { "xsi:type": "SpeedManagement", id, version: "1" }, el("validity", {}, el("validityStatus", {}, "active"), el("validityTimeSpecification", {}, el("overallStartTime", {}, when))))), pad), effect: at, hidden };
  const legacy = rng.bool(0.4);
  const p = (k, name) => (legacy ? name : `${k}:${name}`);
  const [k, tag] = TAG[type];
  let node;
  if (type === "SITUATION") node = el(p(k, tag), { id }, body(rng, n), el(p("sit", "situationRecord"), { "xsi:type": legacy ? "SpeedManagement" : "sit:SpeedManagement", ...XSI, id }, el(p("sit", "validity"), {}, el(p("com", "validityTimeSpecification"), legacy ? {} : NS, el(p("com", "overallStartTime"), {}, when)))));
  else if (type === "CONTROLLER_STATUS") node = el(p(k, tag), {}, el(p("vms", "vmsControllerReference"), { id, version: "1" }), body(rng, n), el(p("vms", "vmsControllerStatusNote"), {}, "kept"));
  else node = rng.bool(0.1) ? el(p(k, tag), { id, version: String(n) }) : el(p(k, tag), { id, version: String(n) }, body(rng, n), el(p("vms", "vmsControllerNote"), {}, "kept"));
  return { text: render(node, pad), effect: at, hidden, legacy };
}
/** what a reader is to see of a stored text */
function shown(d, version, type) {
  const node = parse(d.text);
  if (version === "DATEXII_2_2_3") return canon(node);
  const [p, tag] = TAG[type];
  const walk = (x) => (typeof x === "string" ? x : { ...x, name: x.name === tag ? `${p}:${tag}` : x.name, children: x.children.map(walk) });
  return canon(walk(node));
}

// ---- one history ----------------------------------------------------------------------
async function history(ctx, w, conf, routes, index) {
  const rng = ctx.rng.fork();
  w.reset();
  w.now = Date.UTC(2024, rng.int(4, 6), rng.int(1, 28), rng.int(0, 23));
  const api = apiOf(w, conf, routes, rng);
  const fault = { rate: 0, hits: 0 };
  w.sql.fail = (ses, sql) => {
    if (/^\s*(rollback|discard|show|set|begin|commit)/i.test(sql) || !fault.rate || !rng.bool(fault.rate)) return undefined;
    fault.hits++;
    return rng.bool(0.15) ? { destroy: true } : { error: { message: "deadlock detected", code: "40P01" } };
  };
  const pool = rng.shuffle([...TEST_DEVICES, ...rng.array(6, (i) => rng.pick(["KRM0", "VME/", "O'", "$1"]) + i)]).slice(0, rng.int(3, 8));
  const model = { devices: new Map(), docs: new Map(), data: [], updated: undefined };
  let n = 0;
  const device = (id) => ({ id, type: rng.pick(["NOPEUSRAJOITUS", "VAIHTUVA_VAROITUSMERKKI", "Tiedot's \u00e4"]), road_address: rng.pick(["00001 0001 00000", "$1 &"]), direction: rng.pick(["KASVAVA", "LASKEVA"]), carriageway: rng.pick(["OIKEANPUOLEINEN", "NORMAALI"]), etrs_tm35fin_x: rng.int(100000, 700000) + 0.5, etrs_tm35fin_y: rng.int(6600000, 7700000) });
  const snapshot = () => JSON.stringify([w.sql.all("select * from device order by id"), w.sql.all("select * from device_data_datex2 order by device_id, version, type"), w.sql.all("select * from device_data order by id"), w.sql.all("select * from device_data_row order by id"), w.sql.all("select data_type, subtype, updated from data_updated")]);
  const put = async (what, path, content, sound, apply) => {
    w.now += rng.int(1, 60000);
    const before = snapshot();
    const hits = fault.hits;
    const r = await guarded(ctx, () => api.call("PUT", `/variable-signs/v1/${path}`, { body: content }));
    const hit = fault.hits > hits;
    if (hit) await new Promise((x) => setTimeout(x, 5));
    const about = { what, status: r.status, faults: hit, body: content?.slice(0, 2000), error: String(r.error ?? "") };
    ctx.expect(r.route?.key === true, "put:key", "data can be put in without an API key", about);
    if (r.status === 200) {
      ctx.observe(`put:${what}`);
      ctx.expect(sound === true, "put:accepted", "what cannot be stored whole is accepted", about);
      apply?.();
    } else {
      ctx.observe(sound === true ? "put:failed" : "put:refused");
      if (sound === 400 && !hit) ctx.expect(r.status === 400, "put:bad-request", "a request that makes no sense is not refused as a bad request", about);
      if (sound === true) ctx.expect(hit && r.status >= 500, hit ? "put:blamed" : "put:rejected", hit ? "a failure of the database is reported as the sender's" : "a sound request is not accepted", about);
      ctx.expect(snapshot() === before, "put:partial", "something of a request that was not accepted was stored", about);
    }
  };
  const metadata = async () => {
    const some = rng.subset(pool, 0.8).map(device);
    if (rng.bool(0.1) && some.length) some.push(device(some[0].id));
    let text = JSON.stringify({ laitteet: some.map((d) => ({ tunnus: d.id, tyyppi: d.type, sijainti: { tieosoite: d.road_address, ajosuunta: d.direction, ajorata: d.carriageway, n: d.etrs_tm35fin_y, e: d.etrs_tm35fin_x } })) });
    let sound = true;
    if (rng.bool(0.2)) [text, sound] = rng.pick([[undefined, 400], ["", 400], ["{", 400], ["not json", 400], [text.slice(0, -2), 400], ["{}", false], ["null", false], [some.length ? text.replaceAll('"sijainti"', '"paikka"') : "5", false]]);
    await put("metadata", "update-metadata", text, sound, () => {
      const now = new Map(some.map((d) => [d.id, d]));
      for (const [id, d] of now) {
        const old = model.devices.get(id);
        ctx.observe(old ? (old.deleted !== null ? "devices-returned" : "devices-updated") : "devices-added");
        model.devices.set(id, { ...d, deleted: null });
      }
      for (const [id, d] of model.devices) if (!now.has(id) && d.deleted === null) {
        ctx.observe("devices-removed");
        d.deleted = w.now;
      }
    });
    const rows = w.sql.all("select * from device order by id");
    const want = [...model.devices.values()].sort((a, b) => (a.id < b.id ? -1 : 1));
    ctx.equal(rows.map((r) => [r.id, r.deleted_date, r.type, r.road_address, r.direction, r.carriageway, Number(r.etrs_tm35fin_x), Number(r.etrs_tm35fin_y)]), want.map((d) => [d.id, d.deleted, d.type, d.road_address, d.direction, d.carriageway, d.etrs_tm35fin_x, d.etrs_tm35fin_y]), "devices", "the devices are not those of the latest metadata", { text });
  };
  const datex2 = async () => {
    const ids = rng.array(rng.int(0, 4), () => rng.pick(pool));
    const parts = ids.map((id) => ({ id, ...part(rng, w, id, "DATEXII_2_2_3", "SITUATION", ++n) }));
    let text = `<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<d2LogicalModel modelBaseVersion="2" xmlns="http://datex2.eu/schema/2/2_0" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance"><payloadPublication xsi:type="SituationPublication" lang="fi"><publicationTime>${new Date(w.now).toISOString()}</publicationTime>${parts.map((p) => p.text).join("\n")}</payloadPublication></d2LogicalModel>`;
    let sound = true;
    if (rng.bool(0.3)) {
      [text, sound] = rng.pick([[undefined, 400], ["", 400], [text.replace(/<\?xml[^>]*>/, ""), 400], [text.replace(/<payloadPublication[^>]*>/, ""), 400], [text.replace("</payloadPublication>", "</payloadPublication><payloadPublication/>"), 400], ["text", 400], ...(parts.length ? [[text.slice(0, text.lastIndexOf("</situation>")), false], [text.slice(0, text.lastIndexOf("</situation>") + 5), false], [text.slice(0, text.lastIndexOf("<overallStartTime>") + 24), false], [text.replace(/<overallStartTime>[^<]*/, "<overallStartTime>soon"), false]] : [])]);
    }
    await put("datex2", "update-datex2", text, sound, () => {
      for (const p of parts) model.docs.set(`${p.id}|DATEXII_2_2_3|SITUATION`, { ...p, modified: w.now });
      model.updated = w.now;
      ctx.equal(w.sql.all("select data_type, subtype, updated from data_updated where data_type like 'VS%'"), [{ data_type: "VS_DATEX2", subtype: "-", updated: w.now }], "last-updated", "the time of the latest update is not recorded", {});
      for (const p of new Map(parts.map((x) => [x.id, x])).values()) {
        const row = w.sql.all("select * from device_data_datex2 where device_id = ? and version = 'DATEXII_2_2_3' and type = 'SITUATION'", p.id);
        ctx.equal(row.map((x) => [x.datex2, x.effect_date]), [[p.text, p.effect]], "datex2:stored", "a situation is not stored as it was sent", { id: p.id });
      }
    });
  };
  const data = async () => {
    const opt = (f) => (rng.bool(0.7) ? f() : rng.pick([undefined, null]));
    const signs = rng.array(rng.int(0, 3), () => ({ tunnus: rng.pick(pool), nayttama: opt(() => rng.pick(["80", "100", ...TEXTS])), lisatieto: opt(() => rng.pick(TEXTS)), voimaan: new Date(w.now - rng.int(0, 9999) * 1000).toISOString(), syy: opt(() => rng.pick(["Automaatti", "$1"])), luotettavuus: rng.pick(["NORMAALI", "YHTEYSKATKO"]), rivit: opt(() => rng.array(rng.int(0, 3), () => ({ naytto: rng.int(1, 2), rivi: rng.int(1, 3), teksti: opt(() => rng.pick(TEXTS)) }))) }));
    let text = JSON.stringify({ liikennemerkit: signs });
    let sound = true;
    if (rng.bool(0.25)) {
      const bad = (k, v) => (signs.length ? [[JSON.stringify({ liikennemerkit: signs.map((s, i) => (i === signs.length - 1 ? { ...s, [k]: v } : s)) }), false]] : []);
      [text, sound] = rng.pick([[undefined, 400], ["", 400], ["{", 400], [text.slice(0, -1), 400], ["{}", false], ["null", false], ...bad("luotettavuus", null), ...bad("tunnus", undefined), ...bad("rivit", [{ naytto: 1, rivi: 1, teksti: "x" }, { naytto: null, rivi: 1 }])]);
    }
    const known = w.sql.all("select coalesce(max(id), 0) m from device_data")[0].m;
    await put("data", "update-data", text, sound, () => {
      const rows = w.sql.all("select * from device_data where id > ? order by id", known);
      ctx.equal(rows.map((r) => [r.device_id, r.display_value, r.additional_information, r.effect_date, r.cause, r.reliability]), signs.map((s) => [s.tunnus, s.nayttama ?? null, s.lisatieto ?? null, Date.parse(s.voimaan), s.syy ?? null, s.luotettavuus]), "data:stored", "the state of a sign is not stored as it was sent", { text });
      for (const [i, s] of signs.entries()) {
        const lines = w.sql.all("select * from device_data_row where device_data_id = ? order by id", rows[i]?.id ?? -1);
        ctx.observe("rows-written", lines.length);
        ctx.equal(lines.map((r) => [r.screen, r.row_number, r.text]), (s.rivit ?? []).map((r) => [r.naytto, r.rivi, r.teksti ?? null]), "data:rows", "the lines of a sign are not stored with it", { text });
      }
    });
  };
  // the data upload writes its documents of the newer versions to the same table
  const ingest = () => {
    w.now += rng.int(1, 60000);
    for (let k = rng.int(2, 9); k > 0; k--) {
      const id = rng.pick(pool);
      const { version, type } = rng.pick(READS);
      const d = { id, ...part(rng, w, id, version, type, ++n) };
      w.sql.db.prepare("delete from device_data_datex2 where device_id = ? and version = ? and type = ?").run(id, version, type);
      w.sql.insert("device_data_datex2", [{ device_id: id, version, type, datex2: d.text, effect_date: d.effect, modified: w.now }]);
      model.docs.set(`${id}|${version}|${type}`, { ...d, modified: w.now });
    }
  };
  let seen = 0;
  const read = async (r) => {
    const hits = fault.hits;
    const a = await api.call(rng.bool(0.9) ? "GET" : "HEAD", r.url);
    const about = { url: r.url, status: a.status, error: String(a.error ?? ""), faults: fault.hits > hits };
    if (fault.hits > hits) {
      ctx.observe("reader-errors");
      ctx.expect(a.status >= 500, "read:hidden-failure", "an answer that could not be made whole is given as if nothing had happened", { ...about, text: a.text.slice(0, 500) });
      return;
    }
    ctx.observe("reads");
    ctx.expect(a.route?.key === true, "read:key", "a public method does not ask for an API key", about);
    if (!ctx.expect(a.status === 200 && !a.error, "read:status", "reading published data fails", about)) return;
    ctx.expect(a.headers["content-type"] === "application/xml", "read:type", "documents are not published as XML", { ...about, headers: a.headers });
    const mine = [...model.docs.entries()].filter(([k]) => k.endsWith(`|${r.version}|${r.type}`)).map(([k, d]) => ({ ...d, key: k }));
    const active = mine.filter((d) => model.devices.has(d.id) && model.devices.get(d.id).deleted === null).sort((x, y) => (x.id < y.id ? -1 : 1));
    ctx.observe("deleted-hidden", mine.length - active.length);
    const visible = active.filter((d) => !d.hidden);
    ctx.observe("test-message-hidden", active.length - visible.length);
    if (!visible.length) ctx.observe("reads:empty");
    ctx.observe("test-device-shown", visible.filter((d) => TEST_DEVICES.includes(d.id) && r.type === "SITUATION").length);
    ctx.observe("prefix-added", visible.filter((d) => d.legacy).length);
    let root;
    try {
      root = parse(a.text);
    } catch (e) {
      return ctx.violation("read:well-formed", "what is published is not well-formed XML", { ...about, error: e.message, text: a.text.slice(0, 4000) });
    }
    const old = r.version === "DATEXII_2_2_3";
    const place = old ? find(root, "payloadPublication")[0] : r.type === "CONTROLLER" ? find(root, "vms:vmsControllerTable")[0] : root;
    const [name, kind] = old ? ["d2LogicalModel"] : ROOT[r.type];
    ctx.expect(root.name === name && place && (old ? place.attrs["xsi:type"] === "SituationPublication" : root.attrs["xsi:type"] === kind), "read:payload", "the publication is not of the kind it should be", { ...about, text: a.text.slice(0, 2000) });
    const tag = old ? "situation" : TAG[r.type].join(":");
    const got = (place?.children ?? []).filter((c) => typeof c !== "string" && c.name === tag).map(canon);
    const want = visible.map((d) => shown(d, r.version, r.type));
    seen += got.length;
    ctx.observe("shown", got.length);
    ctx.equal(got, want, "read:content", "what is published is not the stored data of the devices in use", { ...about, text: a.text.slice(0, 3000), active: active.map((d) => d.key) });
    const stray = JSON.stringify(canon(place ?? root)[2].filter((x) => typeof x === "string" && x.trim()));
    ctx.expect(stray === "[]", "read:stray", "there is text between the published elements", { stray, ...about });
    const latest = active.reduce((m, d) => Math.max(m, d.modified), 0);
    const t = [...find(root, "publicationTime"), ...find(root, "com:publicationTime")].map((x) => Date.parse(x.children.join("")));
    ctx.equal(t, [latest], "read:publication-time", "the publication time is not that of the latest change", about);
    ctx.expect(Date.parse(a.headers["last-modified"]) === Math.floor(latest / 1000) * 1000, "read:last-modified", "the time of the latest change is not told to the client", { ...about, headers: a.headers, latest });
  };
  await metadata();
  ingest();
  for (let k = rng.int(7, 14); k > 0; k--) {
    fault.rate = rng.pick([0, 0, 0, 0.08, 0.25]);
    const what = rng.int(0, 9);
    if (what < 3) await metadata();
    else if (what < 5) await datex2();
    else if (what < 7) await data();
    else ingest();
    if (rng.bool(0.3)) fault.rate = 0;
    for (const r of rng.subset(READS, 0.25)) await read(r);
  }
  fault.rate = 0;
  for (const r of READS) await read(r);
  api.done();
  ctx.case({ index, pool: pool.length, n }, seen > 0, { documents: n, devices: model.devices.size, shown: seen });
}
async function guarded(ctx, fn) {
  // a handler that searches a document for ever would stop this check as well
  const real = String.prototype.indexOf;
  let calls = 0;
  let endless = 0;
  const rest = setInterval(() => (calls = 0), 0);
  String.prototype.indexOf = function (...a) {
    if (++calls > 400_000) {
      calls = 0;
      endless++;
      throw new Error("endless search");
    }
    return real.apply(this, a);
  };
  try {
    return await fn();
  } finally {
    String.prototype.indexOf = real;
    clearInterval(rest);
    if (endless) ctx.violation("endless", "handling a document never ends", { endless });
  }
}

// ---- images -----------------------------------------------------------------------------
const SINGLES = ["RAMPPI", "LAIVA_VASEN", "LAIVA_OIKEA", ...["VASEN", "OIKEA", "YLOS", "ALAS"].flatMap((d) => [`LENTOKONE_${d}`, `NUOLI_${d}`]), "NUOLI_VASENYLOS", "NUOLI_OIKEAYLOS", "NUOLI_VASENALAS", "NUOLI_OIKEAALAS"];
const PREFIX = { TIE: "road", VARATIE: "detour", VARAREITTI: "diversion", RAMPPI: "ramp" };
/** what an image of a text consists of: a list of [kind of border, symbol], or nothing */
function drawing(text) {
  let t = text;
  if (t.startsWith("[")) {
    if (!t.endsWith("]") || t.length < 2) return undefined;
    t = t.slice(1, -1);
  }
  if (/[[\]]/.test(t) || t.length < 1 || t.length > 30 || t.split("_").length > 2) return undefined;
  const up = t.replace(/[a-z]/g, (c) => c.toUpperCase());
  if (SINGLES.includes(up)) return [["single", up]];
  const m = /^(?:(TIE|VARATIE|VARAREITTI|RAMPPI)_)?([0-9A-F]*)$/.exec(up);
  if (!m) return undefined;
  const border = m[1] ? PREFIX[m[1]] : "none";
  const inner = border === "ramp" ? "road" : border;
  const chars = [...m[2]].map((c) => [inner, c]);
  return m[1] ? [[border, "BEGIN"], ...chars, [inner, "END"]] : chars;
}
async function images(ctx, w, conf, routes) {
  const rng = ctx.rng.fork();
  const api = apiOf(w, conf, routes, rng);
  const glyphs = new Map(); // what was drawn for a symbol -> its drawing
  const owners = new Map();
  const chars = "0123456789ABCDEFabcdef";
  const some = (n) => rng.array(n, () => rng.pick([...chars])).join("");
  const mixed = (s) => (rng.bool(0.3) ? [...s].map((c) => (rng.bool(0.5) ? c.toLowerCase() : c)).join("") : s);
  const made = () => {
    const kind = rng.int(0, 9);
    const inner = kind < 3 ? some(rng.pick([1, 2, 3, 5, 29, 30, 31])) : kind < 6 ? mixed(`${rng.pick(Object.keys(PREFIX))}_`) + some(rng.pick([1, 2, 3, 10, 19, 20, 25, 26, 27])) : kind < 7 ? mixed(rng.pick(SINGLES)) : rng.pick([() => some(2) + rng.pick(["G", "Z", "\u00e4", " ", "-", ".", "'", "\"", "<", "&", "\\", "$", "\u20ac", "%", "\n", "\u{1f6a2}"]) + some(1), () => `${rng.pick(Object.keys(PREFIX))}_${rng.pick(SINGLES)}`, () => `${rng.pick([...chars])}TIE_12`, () => `TIE_VARATIE_1`, () => "_", () => `_${some(2)}`, () => `${some(2)}_`, () => "temppu_12", () => `TIE${some(2)}`, () => "constructor", () => "TIE_constructor", () => "ROAD_1", () => "BEGIN", () => "TIE_END", () => "NUOLI", () => `${rng.pick(SINGLES)}1`, () => "SINGLE_RAMPPI", () => "RAMPPI_RAMPPI"])();
    const b = rng.int(0, 11);
    return b < 7 ? inner : b < 9 ? `[${inner}]` : rng.pick([`[${inner}`, `${inner}]`, `[[${inner}]]`, `[${inner}][`, `${inner.slice(0, 1)}[${inner.slice(1)}]`, "[]", "[", "]", `[${inner.slice(0, 1)}]${inner.slice(1)}`, `[${inner.slice(0, 1)}]${inner.slice(1)}]`]);
  };
  for (let i = 0; i < ctx.n(2500, 40000); i++) {
    const text = made();
    if (!text) continue;
    const want = drawing(text);
    const a = await api.call(rng.bool(0.9) ? "GET" : "HEAD", `${V1}/images/${encodeURIComponent(text)}`);
    const about = { text, status: a.status, answer: a.text.slice(0, 1500), error: String(a.error ?? "") };
    ctx.case({ text }, Boolean(want), { length: text.length, valid: Boolean(want) });
    if (!want) {
      ctx.observe("images:refused");
      ctx.expect(a.status === 400, "image:refused", "a text no sign can show is not refused as a bad request", about);
      ctx.expect(!a.text.includes("<svg"), "image:refused-drawn", "an image is drawn of a text no sign can show", about);
      continue;
    }
    ctx.observe("images");
    if (text.length > 8 && want[0][1] === "BEGIN") ctx.observe("images:bordered");
    if (want[0][0] === "single") ctx.observe("images:single");
    if (!ctx.expect(a.status === 200 && a.headers["content-type"] === "image/svg+xml", "image:status", "a text a sign can show is not drawn", { ...about, headers: a.headers })) continue;
    let root;
    try {
      root = parse(a.text);
    } catch (e) {
      ctx.violation("image:well-formed", "an image is not well-formed", { ...about, error: e.message });
      continue;
    }
    const symbols = find(root, "symbol");
    const uses = find(root, "use");
    const ids = symbols.map((s) => s.attrs.id);
    ctx.expect(root.name === "svg" && root.attrs.xmlns === "http://www.w3.org/2000/svg", "image:svg", "an image is not an SVG document", about);
    ctx.expect(new Set(ids).size === ids.length, "image:ids", "a symbol is defined more than once in an image", about);
    if (!ctx.expect(uses.length === want.length, "image:length", "an image does not show as many symbols as the text has", { ...about, want })) continue;
    let x = 0;
    for (const [k, u] of uses.entries()) {
      const s = symbols.find((y) => `#${y.attrs.id}` === (u.attrs.href ?? u.attrs["xlink:href"]));
      if (!ctx.expect(s, "image:dangling", "an image uses a symbol it does not define", { ...about, use: u.attrs })) continue;
      const width = Number(s.attrs.width);
      ctx.expect(Number(u.attrs.x) === x && Number(u.attrs.width) === width && width > 0, "image:place", "a symbol is not placed right after the one before it", { ...about, use: u.attrs, x });
      x += width;
      const key = want[k].join(" ");
      const drawn = JSON.stringify(canon({ ...s, attrs: { ...s.attrs, id: "" } }));
      if (!glyphs.has(key)) {
        glyphs.set(key, drawn);
        const other = owners.get(drawn);
        ctx.expect(!other, "image:same", "two different symbols look the same", { key, other });
        owners.set(drawn, key);
      }
      ctx.observe("glyph-compared");
      ctx.expect(glyphs.get(key) === drawn, "image:symbol", "a symbol is drawn differently than elsewhere", { ...about, key, drawn: drawn.slice(0, 600), before: glyphs.get(key).slice(0, 600) });
    }
    ctx.expect(symbols.every((s) => uses.some((u) => (u.attrs.href ?? u.attrs["xlink:href"]) === `#${s.attrs.id}`)), "image:unused", "an image defines a symbol it does not show", about);
    ctx.expect(root.attrs.viewBox === `0 0 ${x} 32`, "image:size", "an image is not as wide as its symbols", { ...about, x, viewBox: root.attrs.viewBox });
  }
  api.done();
}

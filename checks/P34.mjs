// What ships need at sea: lights of a fairway are brightened for the ships that move there, and
// estimates of the state of the sea are kept as measured, each site with one latest estimate.
import { run, service } from "./P33.mjs";

const TS = (c, more = "") => `${c} TIMESTAMPTZ ${more} check(${c} is null or typeof(${c}) = 'integer')`;
const DDL = `
create table areatraffic(id INTEGER primary key, name TEXT not null, brighten_duration_min INTEGER not null, ${TS("brighten_sent")}, ${TS("brighten_end")}, geometry TEXT not null);
create table vessel_location(mmsi INTEGER primary key, x NUMERIC, y NUMERIC, sog NUMERIC, timestamp_ext INTEGER not null);
create table vessel(mmsi INTEGER primary key, name TEXT);
create table sse_report(sse_report_id INTEGER primary key, ${TS("created", "not null")}, latest BOOL not null check(latest in (0, 1)), site_number INTEGER not null check(typeof(site_number) = 'integer'), site_name TEXT not null check(length(site_name) <= 100), ${TS("last_update", "not null")}, sea_state TEXT not null check(sea_state in ('CALM', 'LIGHT', 'MODERATE', 'BREEZE', 'GALE', 'STORM')), trend TEXT not null check(trend in ('UNKNOWN', 'NO_CHANGE', 'ASCENDING', 'DESCENDING')), wind_wave_dir INTEGER not null check(wind_wave_dir between 0 and 359), confidence TEXT not null check(confidence in ('POOR', 'MODERATE', 'GOOD')), heel_angle NUMERIC, light_status TEXT check(light_status in ('ON', 'OFF', 'ON_D')), temperature NUMERIC, longitude NUMERIC not null, latitude NUMERIC not null, site_type TEXT check(site_type in ('FIXED', 'FLOATING')));
create table updated_timestamp(updated_name TEXT primary key, ${TS("updated_time", "not null")}, updated_by TEXT);
create table data_updated(id TEXT, data_type TEXT, subtype TEXT, ${TS("updated")}, primary key(data_type, subtype));
`;
const MIN = 6e4;

export default {
  id: "P34",
  rule: "A case is one history of ships and minutes, or of reports sent to the service; non-trivial when something was brightened or stored.",
  assumptions: ["SQL is executed by SQLite after translation; areas are polygons and ships points well inside or outside of them.", "Sites are not on the equator or the prime meridian."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ "light:minutes": 600, "light:asked": 500, "light:still-bright": 150, "light:ended-soon": 60, "light:slow": 100, "light:old": 100, "light:outside": 100, "light:two-ships": 60, "light:no-visibility": 80, "light:retried": 60, "light:failed": 40, "light:not-recorded": 10, "light:read-fault": 8, "sse:calls": 300, "sse:saved": 500, "sse:bad": 200, "sse:fault": 30, "sse:refused": 30, "sse:failed": 20, "sse:again": 100, "sse:twice": 50 })) ctx.require(k, n);
    await run(ctx, "marine/shiplight", "shiplight-stack", "ShiplightStack", { secretId: "app-secret" }, lights, ctx.n(90, 1200), DDL);
    await run(ctx, "marine/sea-state-estimate", "sse-stack", "SseStack", { secretId: "app-secret" }, estimates, ctx.n(60, 800), DDL);
  },
};

// ---- lights -----------------------------------------------------------------------------
async function lights(ctx, w, conf, routes, index) {
  w.now = Date.UTC(2024, ctx.rng.int(0, 11), ctx.rng.int(1, 28), ctx.rng.int(0, 23), ctx.rng.int(0, 59), ctx.rng.int(0, 59), ctx.rng.int(0, 999));
  const s = service(ctx, w, conf, routes, "update-lights");
  const { rng, fault } = s;
  w.secret({ "shiplight.lightsControlApiKey": "KEY-L", "shiplight.lightsControlEndpointUrl": `${w.url}/lights/set`, "shiplight.visibilityApiKey": "KEY-V", "shiplight.visibilityEndpointUrl": `${w.url}/visibility` });
  const areas = [...Array(rng.int(1, 4)).keys()].map((i) => ({ id: 10 + i * 3, minutes: rng.int(1, 9), box: [20 + i, 60, 20.5 + i, 60.5], end: null, sent: null, maybe: false }));
  for (const a of areas) {
    const [x, y, X, Y] = a.box;
    w.sql.all("insert into areatraffic(id, name, brighten_duration_min, geometry) values (?, ?, ?, ?)", a.id, `area ${a.id}`, a.minutes, JSON.stringify({ type: "Polygon", coordinates: [[[x, y], [X, y], [X, Y], [x, Y], [x, y]]] }));
  }
  const names = ["AURORA", "BALTICA", "CELTIC STAR", "DÄR", "M7", "ZETA", "O'HARA", "\"Q\""];
  const ships = [...Array(rng.int(1, 6)).keys()].map((i) => ({ mmsi: 230000000 + i * 7919, name: rng.pick(names) + (i + 1) }));
  for (const v of ships) w.sql.all("insert into vessel(mmsi, name) values (?, ?)", v.mmsi, v.name);
  const move = () => {
    for (const v of ships) {
      if (v.t && rng.bool(0.3)) continue; // not heard of since
      const a = rng.pick(areas);
      const inside = rng.bool(0.75);
      v.area = inside ? a.id : undefined;
      v.x = inside ? a.box[0] + rng.int(1, 49) / 100 : rng.pick([a.box[0] + rng.int(52, 98) / 100, 10]);
      v.y = a.box[1] + rng.int(1, 49) / 100;
      v.sog = rng.pick([2, 2.1, 1.9, 0, 12.5, 102.2, 102.3, 30, 5, 7.7, 3, 9.1]);
      // the limit of two minutes is not sharp: the time is cut to seconds
      v.t = w.now - rng.pick([0, 0, 0, 1000, 30000, 90000, 118000, 123000, 150000]);
      w.sql.all("insert into vessel_location(mmsi, x, y, sog, timestamp_ext) values (?, ?, ?, ?, ?) on conflict(mmsi) do update set x = excluded.x, y = excluded.y, sog = excluded.sog, timestamp_ext = excluded.timestamp_ext", v.mmsi, v.x, v.y, v.sog, v.t);
    }
  };
  const failing = { lights: 0, visibility: 0 };
  let asked = 0;
  for (let minute = rng.int(12, 28); minute > 0; minute--) {
    w.now += MIN + rng.int(-400, 400);
    move();
    const readFault = rng.bool(0.04);
    const writeFault = !readFault && rng.bool(0.12);
    failing.lights = rng.pick([0, 0, 0, 0.3, 0.6, 1]);
    failing.visibility = rng.pick([0, 0, 0, 0.5, 1]);
    w.sql.fail = (ses, sql) => {
      if (/^\s*(rollback|discard|show|set|begin|commit)/i.test(sql)) return undefined;
      if ((readFault && /distinct on/i.test(sql)) || (writeFault && /^\s*update areatraffic/i.test(sql) && rng.bool(0.6))) {
        fault.hits++;
        return { error: { message: "deadlock detected", code: "40P01" } };
      }
      return undefined;
    };
    const posts = [];
    const looks = [];
    const { error } = await s.update(async (r) => {
      if (r.method === "GET" && r.path === "/visibility/vaylavisi139") {
        const ok = !rng.bool(failing.visibility);
        const value = rng.pick([0, 50, 1200, 20000, 333.5]);
        looks.push({ ok, value, token: r.headers.token, at: posts.length });
        return ok ? { body: { lastUpdated: new Date(w.now).toISOString(), visibilityInMeters: value } } : { status: rng.pick([400, 401, 403, 404]), body: "{}" };
      }
      if (r.method === "POST" && r.path === "/lights/set") {
        const ok = !rng.bool(failing.lights);
        posts.push({ ok, key: r.headers["x-api-key"], body: JSON.parse(r.body.toString()), looked: looks.length });
        return ok ? { body: { LightsSetSentSuccessfully: [1, 2], LightsSetSentFailed: rng.bool(0.2) ? [3] : [] } } : { status: rng.pick([400, 401, 403, 429, 500, 502, 503]), headers: { "retry-after": "0" }, body: "{}" };
      }
      return { status: 404, body: "{}" };
    });
    const about = { index, minute, now: w.now, readFault, writeFault, error: String(error?.message ?? error ?? ""), posts };
    ctx.observe("light:minutes");
    if (readFault) {
      ctx.observe("light:read-fault");
      ctx.expect(error, "lights:hidden", "that the ships could not be found is hidden", about);
      ctx.expect(!posts.length, "lights:blind", "lights are set though the ships could not be found", about);
      continue;
    }
    ctx.expect(!error, "lights:stopped", "an area that fails stops the others", about);
    const byArea = new Map();
    for (const p of posts) (byArea.get(p.body.routeId) ?? byArea.set(p.body.routeId, []).get(p.body.routeId)).push(p);
    for (const id of byArea.keys()) ctx.expect(areas.some((a) => a.id === id), "lights:unknown", "lights of an area that is not known are set", { ...about, id });
    ctx.expect(looks.every((l) => l.token === "KEY-V"), "lights:token", "the visibility is asked without its token", { looks });
    for (const a of areas) {
      const recent = (v) => (w.now - v.t <= 119000 ? true : w.now - v.t > 122000 ? false : undefined);
      const here = ships.filter((v) => v.area === a.id);
      for (const v of here) {
        if (!(v.sog > 2)) ctx.observe("light:slow");
        if (recent(v) === false) ctx.observe("light:old");
      }
      if (ships.some((v) => v.area === undefined && recent(v) && v.sog > 2)) ctx.observe("light:outside");
      const moving = here.filter((v) => v.sog > 2 && v.sog !== 102.3 && recent(v) !== false);
      const sure = moving.filter((v) => recent(v));
      const calls = byArea.get(a.id) ?? [];
      const at = { ...about, area: { ...a }, here, calls };
      const left = a.end === null ? -1 : a.end - w.now;
      if (moving.length && left >= MIN) ctx.observe("light:still-bright");
      if (moving.length && left > 0 && left < MIN) ctx.observe("light:ended-soon");
      const need = left < MIN;
      if (!moving.length) ctx.expect(!calls.length, "lights:needless", "lights are brightened when no ship is moving", at);
      else if (!need) ctx.expect(!calls.length, "lights:again", "lights that are bright for a while yet are brightened again", at);
      else if (sure.length) ctx.expect(calls.length, "lights:dark", "lights are not brightened for a moving ship", at);
      if (!calls.length) {
        if (a.row === undefined) a.row = null;
        continue;
      }
      asked++;
      ctx.observe("light:asked");
      if (moving.length > 1) ctx.observe("light:two-ships");
      const sorted = [...moving].sort((x, y) => (x.name < y.name ? -1 : 1));
      const look = looks[calls[0].looked - 1];
      ctx.expect(look, "lights:unlooked", "lights are set without asking for the visibility", at);
      if (look && !look.ok) ctx.observe("light:no-visibility");
      for (const c of calls) {
        ctx.expect(c.key === "KEY-L", "lights:key", "lights are set without the key", at);
        const ship = moving.find((v) => v.name === c.body.shipName);
        ctx.expect(ship && String(ship.mmsi) === c.body.MMSI, "lights:ship", "lights are set for a ship that is not there", at);
        if (moving.length === sure.length) ctx.expect(ship === sorted[0], "lights:first-ship", "which ship lights are set for is not always the same", at);
        ctx.equal({ visibility: c.body.visibility, time: c.body.time }, { visibility: look?.ok ? look.value : null, time: a.minutes }, "lights:content", "lights are not set as they should be", at);
      }
      const ok = calls.filter((c) => c.ok).length;
      ctx.expect(ok <= 1 && (ok === 0 || calls[calls.length - 1].ok), "lights:set-twice", "lights are set again when they already were", at);
      if (calls.length > 1) ctx.observe("light:retried");
      if (!ok) {
        ctx.observe("light:failed");
        ctx.expect(calls.length === 3, "lights:tries", "setting lights is given up too early, or tried too often", at);
      }
      const row = w.sql.all("select brighten_sent, brighten_end from areatraffic where id = ?", a.id)[0];
      const was = [a.sent, a.end];
      const is = [row.brighten_sent, row.brighten_end];
      const stored = JSON.stringify(is) === JSON.stringify([w.now, w.now + a.minutes * MIN]);
      const same = JSON.stringify(is) === JSON.stringify(was);
      if (!ok) ctx.expect(same, "lights:told-bright", "lights are told to be bright though they could not be set", { ...at, was, is });
      else if (writeFault) {
        ctx.expect(same || stored, "lights:record", "the time of brightening is wrong", { ...at, was, is });
        if (same) ctx.observe("light:not-recorded");
      } else ctx.expect(stored, "lights:record", "the time lights were brightened is not recorded", { ...at, was, is });
      [a.sent, a.end] = is;
    }
    for (const a of areas) {
      const row = w.sql.all("select brighten_sent, brighten_end from areatraffic where id = ?", a.id)[0];
      ctx.equal([row.brighten_sent, row.brighten_end], [a.sent, a.end], "lights:other", "the time of an area changes when another is brightened", { ...about, a });
    }
    if (rng.bool(0.1)) w.now += rng.int(1, 20) * MIN;
  }
  ctx.case(`lights ${index}`, asked > 0);
}

// ---- the state of the sea ---------------------------------------------------------------
async function estimates(ctx, w, conf, routes, index) {
  w.now = Date.UTC(2024, ctx.rng.int(0, 11), ctx.rng.int(1, 28), ctx.rng.int(0, 23), ctx.rng.int(0, 59), ctx.rng.int(0, 59), ctx.rng.int(0, 999));
  const s = service(ctx, w, conf, routes, "update-sse-data");
  const { rng, fault } = s;
  const sites = [...Array(rng.int(1, 4)).keys()].map((i) => ({ number: 20000 + i * 17, name: rng.pick(["Kipsi", "Länsi-Tonttu", "O'Brien", "\"q\" \\", "$1 ;--"]) }));
  const history = new Map(sites.map((x) => [x.number, []]));
  const report = () => {
    const site = rng.pick(sites);
    const t = w.now - rng.int(0, 7200) * 1000;
    const r = {
      Site: { SiteName: site.name, SiteNumber: site.number, SiteType: rng.pick(["FIXED", "FLOATING"]) },
      SSE_Fields: { Last_Update: rng.bool() ? new Date(t).toISOString() : new Date(t + 3 * 36e5).toISOString().replace(/\.000Z$/, "+03:00").replace("Z", "+03:00"), SeaState: rng.pick(["CALM", "LIGHT", "MODERATE", "BREEZE", "GALE", "STORM"]), Trend: rng.pick(["UNKNOWN", "NO_CHANGE", "ASCENDING", "DESCENDING"]), WindWaveDir: rng.int(0, 359), Confidence: rng.pick(["POOR", "MODERATE", "GOOD"]) },
      Extra_Fields: { Coord_Latitude: rng.int(580000, 660000) / 1e4, Coord_Longitude: rng.int(170000, 300000) / 1e4 },
    };
    if (rng.bool(0.7)) r.Extra_Fields.Temperature = rng.pick([0, -3.5, 12, 21.25]);
    if (rng.bool(0.7)) r.Extra_Fields.Heel_Angle = rng.pick([0, 12.5, -4, 33]);
    if (rng.bool(0.7)) r.Extra_Fields.Light_Status = rng.pick(["ON", "OFF", "ON_D"]);
    if (rng.bool(0.3)) r.Extra_Fields.More = { a: 1 };
    return { t, r };
  };
  const break_ = (r) => {
    const x = structuredClone(r);
    return rng.pick([
      () => { delete x.Extra_Fields; return x; }, () => { delete x.Extra_Fields.Coord_Latitude; return x; }, () => { delete x.Extra_Fields.Coord_Longitude; return x; }, () => { delete x.SSE_Fields; return x; },
      () => { x.SSE_Fields.SeaState = "WILD"; return x; }, () => { x.SSE_Fields.WindWaveDir = 360; return x; }, () => { delete x.SSE_Fields.Confidence; return x; }, () => { x.Site.SiteName = null; return x; },
      () => { delete x.Site; return x; }, () => null, () => { x.Site.SiteName = "n".repeat(101); return x; },
    ])();
  };
  const want = ({ t, r }) => ({ site_name: r.Site.SiteName, last_update: t, sea_state: r.SSE_Fields.SeaState, trend: r.SSE_Fields.Trend, wind_wave_dir: r.SSE_Fields.WindWaveDir, confidence: r.SSE_Fields.Confidence, heel_angle: r.Extra_Fields.Heel_Angle ?? null, light_status: r.Extra_Fields.Light_Status ?? null, temperature: r.Extra_Fields.Temperature ?? null, longitude: r.Extra_Fields.Coord_Longitude, latitude: r.Extra_Fields.Coord_Latitude, site_type: r.Site.SiteType });
  let stored = 0;
  for (let call = rng.int(4, 9); call > 0; call--) {
    w.now += rng.int(1000, 600000);
    const reports = rng.array(rng.int(0, 6), () => (rng.bool(0.7) ? { good: true, ...report() } : { r: break_(report().r) }));
    const broken = rng.bool(0.1) ? rng.pick(["{}", '{"SSE_Reports":null}', '{"sse_reports":[]}', "{\"other\":1}"]) : undefined;
    const down = !broken && rng.bool(0.08);
    const rate = !broken && !down && rng.bool(0.25) ? 0.2 : 0;
    let hits = 0;
    const message = rng.pick(["deadlock detected", "no \"table\" here", "it's \\ gone\nnow", "$util.x #set"]);
    w.sql.fail = (ses, sql) => {
      if (down) return { error: { message, code: "57P03", detail: "a \"b\"" } };
      if (!rate || !/sse_report|updated_timestamp/i.test(sql) || !rng.bool(rate)) return undefined;
      hits++;
      return { error: { message, code: "40P01" } };
    };
    const before = w.sql.all("select * from sse_report order by sse_report_id");
    const mark = w.sql.all("select updated_time from updated_timestamp where updated_name = 'SSE_DATA'")[0]?.updated_time ?? null;
    const a = await s.api.call("POST", "/sse/v1/update", { body: broken ?? JSON.stringify({ SSE_Reports: reports.map((x) => x.r) }) });
    w.sql.fail = () => undefined;
    const about = { index, call, broken, down, hits, reports: reports.map((x) => x.r), answer: { status: a.status, text: a.text.slice(0, 400) } };
    ctx.observe("sse:calls");
    ctx.expect(a.route?.key === true, "sse:key", "reports are taken from anyone", about);
    const json = ctx.attemptSync(() => JSON.parse(a.text));
    ctx.expect(json.ok, "sse:json", "the answer to a report cannot be read", about);
    if (broken) {
      ctx.observe("sse:refused");
      ctx.expect(a.status === 400, "sse:empty", "a message without reports is not refused", about);
    } else if (down) {
      ctx.observe("sse:failed");
      ctx.expect(a.status === 500, "sse:hidden", "that nothing could be stored is not told", about);
    } else {
      ctx.expect(a.status === 200, "sse:failure", "one report that cannot be stored makes all fail", about);
    }
    const after = w.sql.all("select * from sse_report order by sse_report_id");
    const fresh = after.slice(before.length);
    ctx.equal(after.slice(0, before.length).map((x) => ({ ...x, latest: 0 })), before.map((x) => ({ ...x, latest: 0 })), "sse:history", "a report stored before has changed", about);
    for (const x of fresh) ctx.expect(x.created === w.now, "sse:created", "the time a report was stored is not recorded", { ...about, x });
    const rows = fresh.map(({ sse_report_id, created, latest, site_number, ...x }) => [site_number, x]);
    const good = broken || down ? [] : reports.filter((x) => x.good);
    const wanted = good.map((x) => [x.r.Site.SiteNumber, want(x)]);
    if (hits) {
      // what is stored is some of the good ones, in order
      ctx.observe("sse:fault");
      let i = 0;
      for (const row of rows) {
        while (i < wanted.length && JSON.stringify(sortKeys(wanted[i])) !== JSON.stringify(sortKeys(row))) i++;
        ctx.expect(i++ < wanted.length, "sse:invented", "something is stored that was not reported", { ...about, row });
      }
      ctx.expect(good.length - rows.length <= hits, "sse:lost", "a report is not stored because another could not be", { ...about, good: good.length, stored: rows.length });
    } else ctx.equal(rows, wanted, "sse:stored", "what is stored is not what was reported", about);
    if (json.ok && a.status === 200) ctx.equal(json.value, { saved: rows.length, errors: reports.length - rows.length }, "sse:counts", "the answer does not tell how many were stored", about);
    ctx.observe("sse:saved", rows.length);
    if (!broken && !down) ctx.observe("sse:bad", reports.length - good.length);
    stored += rows.length;
    for (const [n] of rows) {
      if (history.get(n).length) ctx.observe("sse:again");
      history.get(n).push(1);
    }
    for (const { number } of sites) {
      const of = after.filter((x) => x.site_number === number);
      if (fresh.filter((x) => x.site_number === number).length > 1) ctx.observe("sse:twice");
      ctx.equal(of.filter((x) => x.latest).map((x) => x.sse_report_id), of.slice(-1).map((x) => x.sse_report_id), "sse:latest", "a site does not have its newest report, and it alone, as the latest", { ...about, number });
    }
    const marked = w.sql.all("select updated_time from updated_timestamp where updated_name = 'SSE_DATA'")[0]?.updated_time ?? null;
    ctx.expect(marked === (rows.length ? w.now : mark), "sse:marked", rows.length ? "an update is not marked as made" : "an update is marked that stored nothing", { ...about, marked, mark });
  }
  ctx.case(`estimates ${index}`, stored > 0);
}
const sortKeys = ([n, o]) => [n, Object.entries(o).sort(([a], [b]) => (a < b ? -1 : 1))];

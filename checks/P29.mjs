// Marine camera images: the update function against a camera server that speaks the video
// protocol, and the restricted API (authorizer, cached policies, image store, metadata).
import { World } from "../harness/world.mjs";
import { Queues, readQueues } from "../harness/queues.mjs";
import { Api, readRoutes } from "../harness/api.mjs";
import { el, render, parse, find } from "../harness/xmlmini.mjs";
import { iamMatch, target } from "../harness/cfn.mjs";
import { template } from "./P24.mjs";
import { permissions, resolver } from "./P26.mjs";

const APP = "marine/marinecam";
const DDL = `
create table camera_group(id TEXT primary key, name TEXT not null);
create table camera(id TEXT primary key, name TEXT not null, camera_group_id TEXT not null, last_updated TIMESTAMPTZ check(last_updated is null or typeof(last_updated) = 'integer'), location GEOMETRY);
`;
const BUCKET = "dt-marinecam-test";

export default {
  id: "P29",
  rule: "A case is one run of the update against a camera server, or one user's sequence of requests to the restricted API; non-trivial when an image was stored or a request let through.",
  assumptions: ["The camera server is a stand-in for the video protocol over plain HTTP; the undici, p-limit and Cognito packages are stand-ins with their documented semantics, retries without waits.", "API Gateway evaluates the authorizer's policy for the method called and caches it by its identity sources.", "SQL is executed by SQLite after translation."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ runs: 60, stored: 150, "not-stored": 100, "fault:http": 30, "fault:command": 8, "fault:frame": 25, "fault:store": 10, "fault:empty": 10, "login-refused": 15, calls: 600, allowed: 80, denied: 150, unauthorized: 25, "cached-policies": 30, listed: 40, "key-listed": 15, "new-password": 10, "header-other-case": 40, "reader-errors": 2 })) ctx.require(k, n);
    const cfn = await template(APP, "marinecam-stack", "MarinecamStack", { enableKeyProtectedApi: true, enablePasswordProtectedApi: true, secretId: "app-secret", stackFeatures: { enableCanaries: false } });
    const conf = readQueues(cfn, APP);
    for (const f of Object.values(conf.functions)) for (const k of ["USERPOOL_ID", "POOLCLIENT_ID"]) if (k in f.env) f.env[k] = String(f.env[k]);
    const w = await new World(DDL, { readers: true }).open();
    try {
      for (let i = 0; i < ctx.n(110, 1200); i++) {
        await update(ctx, w, cfn, conf, i);
        await visits(ctx, w, cfn, conf, i);
        if (w.sql.unsupported.length) throw new Error("unsupported SQL " + JSON.stringify(w.sql.unsupported[0]));
      }
    } finally {
      await w.close();
    }
  },
};
function queuesOf(conf, rng) {
  const q = new Queues({ ...conf, functions: Object.fromEntries(Object.entries(conf.functions).map(([k, v]) => [k, { ...v }])) }, { rng });
  q.baseEnv = Object.fromEntries(Object.entries(process.env).filter(([k]) => k.startsWith("AWS_")));
  return q;
}
const within = (ms, p) => {
  let t;
  return Promise.race([p, new Promise((_, j) => (t = setTimeout(() => j(Object.assign(new Error("no answer"), { hung: true })), ms)))]).finally(() => clearTimeout(t));
};
function cameras(rng) {
  const groups = ["Saimaa", ...rng.subset(["Helsinki", "Saimaa2", "saimaa", "It\u00e4", "a b"], 0.6)];
  return { groups, list: rng.array(rng.int(1, 9), (i) => ({ id: `${rng.pick(["C", "cam-", "1.2.246-"])}${i}${rng.digits(3)}`, name: rng.text(8), group: rng.bool(0.6) ? "Saimaa" : rng.pick(groups), at: Date.UTC(2024, 0, 1, rng.int(0, 20)), lon: rng.int(2000, 3000) / 100, lat: rng.int(6000, 7000) / 100 })) };
}
function fill(w, world) {
  w.reset();
  w.sql.insert("camera_group", world.groups.map((g) => ({ id: g, name: g })));
  w.sql.insert("camera", world.list.map((c) => ({ id: c.id, name: c.name, camera_group_id: c.group, last_updated: c.at, location: JSON.stringify({ type: "Point", coordinates: [c.lon, c.lat] }) })));
}
function bucket(w) {
  const b = { objects: new Map(), puts: [], fail: () => false };
  w.aws = async (r) => {
    if (r.method === "PUT" && r.service === "s3") {
      const [, name, ...k] = r.path.split("/");
      let body = r.body;
      if (/aws-chunked/.test(r.headers["content-encoding"] ?? "")) body = unchunk(body);
      const key = decodeURIComponent(k.join("/"));
      if (b.fail(key)) return { status: 403, body: "<Error><Code>AccessDenied</Code><Message>no</Message></Error>" };
      b.puts.push({ bucket: name, key, body, type: r.headers["content-type"], acl: r.headers["x-amz-acl"] });
      b.objects.set(`${name}/${key}`, body);
      return { headers: { etag: '"x"' } };
    }
    return { status: 501, body: "" };
  };
  return b;
}
function unchunk(b) {
  const parts = [];
  for (let i = 0; i < b.length; ) {
    const e = b.indexOf("\r\n", i);
    const n = Number.parseInt(b.subarray(i, e).toString().split(";")[0], 16);
    if (!n) break;
    parts.push(b.subarray(e + 2, e + 2 + n));
    i = e + 2 + n + 2;
  }
  return Buffer.concat(parts);
}

// ---- updating the images ---------------------------------------------------------------
const bytes = (rng, n) => Buffer.from(rng.array(n, () => rng.int(0, 255)));
function frame(rng, image) {
  const ext = rng.pick([0, 0, 8, 20]);
  const head = 36 + ext;
  const b = Buffer.concat([bytes(rng, head), image]);
  b.writeUInt32LE(image.length, 28);
  b.writeUInt16LE(head, 32);
  b.writeUInt16LE(ext ? 1 : 0, 34);
  return b;
}
async function update(ctx, w, cfn, conf, i) {
  const rng = ctx.rng.fork("update" + i);
  const world = cameras(rng);
  fill(w, world);
  w.now = Date.UTC(2024, rng.int(0, 11), rng.int(1, 28), rng.int(0, 23), rng.int(0, 59), rng.int(0, 59));
  const store = bucket(w);
  const user = { username: rng.word(3, 8), password: rng.word(3, 8) + rng.pick(["", "!", "\u00e4", "#1 2"]) };
  w.secret(Object.fromEntries(Object.entries({ url: w.url, ...user, certificate: Buffer.from("cert").toString("base64"), ca: Buffer.from("ca").toString("base64"), hostname: "cams.example" }).map(([k, v]) => [`mobile_server.${k}`, v])));
  const fn = Object.values(conf.functions).find((f) => /update-images/.test(f.wanted ?? f.rel ?? ""));
  const q = queuesOf(conf, rng);
  q.functions[fn.id].module = undefined;
  const res = resolver(cfn);
  const perms = permissions(cfn, cfn.byId(fn.id).Properties.Role, res);
  const before = new Map();
  for (const c of world.list) if (rng.bool(0.5)) (store.objects.set(`${BUCKET}/images/Saimaa/${c.id}.jpg`, Buffer.from("old")), before.set(c.id, "old"));

  for (let round = 0; round < rng.int(1, 2); round++) {
    w.now += rng.int(60, 600) * 1000;
    store.puts = [];
    const mine = world.list.filter((c) => c.group === "Saimaa").map((c) => c.id);
    const kinds = ["none", "none", "none", "none", "http", "http404", "command", "frame404", "frame500", "frame-short", "empty", "store", "destroy", "close"];
    const plan = new Map(mine.map((id) => [id, rng.bool(0.25) ? "none" : rng.pick(kinds)]));
    const whole = rng.pick([undefined, undefined, undefined, undefined, undefined, undefined, "login", "connect", "disconnect", "list", "update"]);
    const images = new Map(mine.map((id) => [id, bytes(rng, rng.pick([1, 10, 300, 4000]))]));
    const s = { connection: undefined, logged: false, gone: false, asked: [], streams: new Map(), sequences: [], wrong: [], served: new Map() };
    const ok = (command, params = {}, more = []) => ({ headers: { "content-type": "text/xml" }, body: render(el("Communication", {}, el("ConnectionId", {}, s.connection ?? ""), el("Command", { SequenceId: "1" }, el("Type", {}, "Response"), el("Name", {}, command), el("Result", {}, "OK"), el("OutputParams", {}, Object.entries(params).map(([Name, Value]) => el("Param", { Name, Value }))), el("Items", {}), more))) });
    const bad = (command, code) => ({ headers: { "content-type": "text/xml" }, body: render(el("Communication", {}, el("ConnectionId", {}, s.connection ?? ""), el("Command", { SequenceId: "1" }, el("Type", {}, "Response"), el("Name", {}, command), el("Result", {}, "Error"), el("ErrorCode", {}, code), el("OutputParams", {}), el("Items", {})))) });
    const page = (status) => ({ status, headers: { "content-type": "text/html" }, body: `<html><body>${"The server could not answer. ".repeat(rng.pick([6, 2000]))}</body></html>` });
    const late = () => new Promise((r) => setTimeout(r, rng.int(0, 3)));
    w.serve = async (r) => {
      await late();
      if (r.method !== "POST") s.wrong.push(`${r.method} ${r.path}`);
      if (r.headers.host !== "cams.example") s.wrong.push(`host ${r.headers.host}`);
      const video = /^\/Video\/(.+)$/.exec(r.path);
      if (video) {
        const st = s.streams.get(video[1]);
        if (!st || !st.open) return page(404);
        const p = plan.get(st.camera);
        if (p === "frame404") return page(404);
        if (p === "frame500") return page(500);
        if (p === "frame-short") return { body: bytes(rng, rng.int(0, 30)), headers: { "content-type": "application/octet-stream" } };
        if (!st.timed) s.wrong.push("frame of a stream whose time is not set");
        const f = frame(rng, p === "empty" ? Buffer.alloc(0) : images.get(st.camera));
        if (p !== "empty") s.served.set(st.camera, images.get(st.camera));
        return { body: f, headers: { "content-type": "application/octet-stream" } };
      }
      const doc = parse(r.body.toString("utf8"));
      const cmd = find(doc, "Command")[0];
      const name = find(cmd, "Name")[0].children.join("").trim();
      const p = Object.fromEntries(find(cmd, "Param").map((x) => [x.attrs.Name, x.attrs.Value]));
      const connection = find(doc, "ConnectionId")[0].children.join("").trim();
      s.sequences.push(Number(cmd.attrs.SequenceId));
      if (name === "Connect") {
        if (whole === "connect") return bad(name, "5");
        s.connection = `conn-${rng.digits(6)}`;
        return ok(name, { ConnectionId: s.connection, Other: "x" });
      }
      if (connection !== s.connection || s.gone) return s.wrong.push(`${name} of connection ${connection}`), bad(name, "10");
      if (name === "Login") {
        if (p.Username !== user.username || p.Password !== user.password) s.wrong.push("credentials");
        if (whole === "login") return bad(name, "15");
        s.logged = true;
        return ok(name);
      }
      if (!s.logged) return s.wrong.push(`${name} before login`), bad(name, "10");
      if (name === "Disconnect") {
        s.gone = true;
        return whole === "disconnect" ? bad(name, "3") : ok(name);
      }
      if (name === "RequestStream") {
        s.asked.push(p.CameraId);
        const k = plan.get(p.CameraId);
        if (k === undefined) return bad(name, "404");
        if (k === "command") return bad(name, "21");
        if (k === "http") return page(500);
        if (k === "http404") return page(404);
        if (k === "destroy") return undefined;
        const id = `v-${rng.digits(9)}`;
        s.streams.set(id, { camera: p.CameraId, open: true, timed: false });
        return ok(name, rng.bool() ? { VideoId: id, Width: "1280" } : { Width: "1280", VideoId: id });
      }
      const st = s.streams.get(p.VideoId);
      if (!st) return s.wrong.push(`${name} of stream ${p.VideoId}`), bad(name, "30");
      if (name === "ChangeStream") {
        if (Math.abs(Number(p.Time) - w.now) > 1000) s.wrong.push(`time ${p.Time}`);
        st.timed = true;
        return ok(name);
      }
      if (name === "CloseStream") {
        if (plan.get(st.camera) === "close") return bad(name, "31");
        st.open = false;
        return ok(name);
      }
      s.wrong.push(`command ${name}`);
      return bad(name, "1");
    };
    store.fail = (key) => plan.get(/^images\/Saimaa\/(.*)\.jpg$/.exec(key)?.[1]) === "store";
    let hit = 0;
    w.sql.fail = (ses, sql) => {
      if (whole === "list" && /select id from camera/i.test(sql)) return hit++, { error: { message: "no", code: "57P01" } };
      if (whole === "update" && /^\s*update/i.test(sql) && rng.bool(0.7)) return hit++, { error: { message: "deadlock detected", code: "40P01" } };
      return undefined;
    };
    let error;
    try {
      const handler = await q.load(fn.id);
      await within(20000, handler({}, { awsRequestId: "r" }));
    } catch (e) {
      error = e;
    }
    w.sql.fail = () => undefined;
    ctx.observe("runs");
    if (s.logged && hit && whole === "list") ctx.violation("update:list", "the cameras to update are not those listed", {});
    const about = { plan: Object.fromEntries(plan), whole, asked: s.asked, stored: store.puts.map((x) => x.key), wrong: s.wrong, error: String(error ?? "") };
    ctx.expect(!error?.hung, "update:hung", "the update never ends", about);
    ctx.expect(!s.wrong.length, "update:protocol", "the camera server is spoken to in a way it does not understand", about);
    ctx.expect(new Set(s.sequences.filter((x) => x > 0)).size >= new Set(s.sequences).size && s.sequences.every((x) => x > 0), "update:sequence", "commands are not numbered", about);
    if (s.logged) {
      ctx.expect(s.gone, "update:disconnect", "the session with the camera server is left open", about);
      ctx.expect(new Set(s.asked).size === mine.length && mine.every((id) => s.asked.includes(id)), "update:asked", "the cameras asked are not those of the group", about);
      for (const [, st] of s.streams) if (!["close", "frame404", "frame500", "frame-short", "destroy"].includes(plan.get(st.camera))) ctx.expect(!st.open, "update:stream", "a stream is left open", { ...about, camera: st.camera });
    } else ctx.observe("login-refused");
    const rows = new Map(w.sql.all("select * from camera").map((x) => [x.id, x]));
    for (const c of world.list) {
      const key = `${BUCKET}/images/Saimaa/${c.id}.jpg`;
      const p = plan.get(c.id);
      const puts = store.puts.filter((x) => x.key === `images/Saimaa/${c.id}.jpg`);
      const now = store.objects.get(key);
      const row = rows.get(c.id);
      const gives = s.logged && ["none", "store", "close"].includes(p);
      const wit = { ...about, camera: c.id, group: c.group, puts: puts.length, lastUpdated: row.last_updated, was: c.at };
      if (p && p !== "none") ctx.observe(p.startsWith("http") || p === "destroy" ? "fault:http" : p.startsWith("frame") ? "fault:frame" : `fault:${p}`);
      if (puts.length) {
        ctx.observe("stored");
        const want = s.served.get(c.id);
        ctx.expect(puts.length === 1 && want && puts[0].body.equals(want) && puts[0].bucket === BUCKET && puts[0].type === "image/jpeg", "update:image", "what is stored is not the image the camera gave", { ...wit, got: puts[0].body.subarray(0, 60).toString("latin1"), size: puts[0].body.length, wanted: want?.length, type: puts[0].type });
        ctx.expect(perms.allows("s3:PutObject", `arn:aws:s3:::${puts[0].bucket}/${puts[0].key}`), "update:permission", "the update may not store images", wit);
        ctx.expect(!/public|authenticated/.test(puts[0].acl ?? "private"), "update:acl", "an image is stored for everyone to read", { ...wit, acl: puts[0].acl });
      } else {
        ctx.observe("not-stored");
        if (gives && p === "none") ctx.violation("update:missing", "the image of a camera is not stored though the camera gave one", wit);
        ctx.expect(String(now ?? "") === (before.get(c.id)?.toString() ?? ""), "update:lost", "the earlier image is gone though there is no new one", wit);
      }
      const marked = row.last_updated !== c.at;
      if (whole === "update") {
        if (marked) ctx.expect(puts.length, "update:marked", "an image that was not stored is marked as updated", wit);
      } else ctx.expect(marked === puts.length > 0, puts.length ? "update:unmarked" : "update:marked", puts.length ? "a stored image is not marked as updated" : "an image that was not stored is marked as updated", wit);
      if (marked) ctx.expect(row.last_updated === w.now, "update:time", "the time of the update is wrong", wit);
      c.at = row.last_updated;
      if (now !== undefined) before.set(c.id, now);
    }
    ctx.expect(store.puts.every((x) => mine.some((id) => x.key === `images/Saimaa/${id}.jpg`)), "update:stray", "something else is stored", about);
    ctx.case(["update", i, round, [...plan.values()].join(), whole]);
  }
}

// ---- the restricted API ------------------------------------------------------------------
async function visits(ctx, w, cfn, conf, i) {
  const rng = ctx.rng.fork("visits" + i);
  const world = cameras(rng);
  fill(w, world);
  w.now = Date.UTC(2024, rng.int(0, 11), rng.int(1, 28), rng.int(0, 23));
  const q = queuesOf(conf, rng);
  const res = resolver(cfn);
  const routes = readRoutes(cfn, conf);
  const api = new Api(routes, (id) => q.load(id));
  const objects = new Map();
  for (const c of world.list) objects.set(`${BUCKET}/images/${c.group}/${c.id}.jpg`, `image of ${c.id}`);
  // users
  const users = new Map();
  for (let n = 0; n < rng.int(2, 4); n++) users.set(rng.pick(["u", "\u00e4ij\u00e4", "a.b@c"]) + n, { password: rng.word(2, 6) + rng.pick(["", "", ":x", ":", "\u00f6", "==", " y"]), groups: rng.bool(0.12) ? undefined : rng.subset([...world.groups, "other", "metadata", "cameras"], 0.4), state: rng.pick(["ok", "ok", "ok", "ok", "ok", "ok", "challenge", "challenge-fails", "throws"]) });
  globalThis.__cognito = {
    authenticate(pool, name, user, password) {
      const u = users.get(name);
      if (name !== user || !u || u.password !== password) return { failure: { code: "NotAuthorizedException", message: "Incorrect username or password." } };
      if (u.state === "throws") return { throws: new Error("network") };
      if (u.state.startsWith("challenge")) return { challenge: u };
      return { payload: { sub: "x", username: name, ...(u.groups && { "cognito:groups": [...u.groups] }) } };
    },
    newPassword(name, password, u) {
      if (u.state === "challenge-fails") return { failure: new Error("no") };
      return { payload: { sub: "x", ...(u.groups && { "cognito:groups": [...u.groups] }) } };
    },
  };
  const cache = new Map();
  let fault = 0;
  for (const r of routes) if (r.verb === "GET") ctx.expect(r.key || r.auth === "CUSTOM", "open", "a method of the restricted API is open to everyone", { path: r.path });
  async function gate(route, url, headers) {
    const a = cfn.byId(route.authorizer).Properties;
    const fn = Object.keys(conf.functions).find((id) => JSON.stringify(a.AuthorizerUri).includes(`"${id}"`));
    const lower = Object.fromEntries(Object.entries(headers).map(([k, v]) => [k.toLowerCase(), v]));
    const sources = String(a.IdentitySource).split(",").map((x) => x.trim());
    const values = sources.map((x) => (x.startsWith("method.request.header.") ? lower[x.slice(22).toLowerCase()] : x === "context.path" ? url : x === "context.httpMethod" ? "GET" : x === "context.resourcePath" ? route.path : undefined));
    if (values.some((v) => v === undefined || v === "")) return { status: 401 };
    const ttl = (a.AuthorizerResultTtlInSeconds ?? 300) * 1000;
    const key = JSON.stringify(values);
    const arn = `arn:aws:execute-api:eu-west-1:123456789012:api1/prod/GET${url}`;
    let e = cache.get(key);
    if (e && w.now - e.at < ttl) ctx.observe("cached-policies");
    else {
      const handler = await q.load(fn);
      try {
        const result = await within(400, (async () => handler({ type: "REQUEST", methodArn: arn, resource: route.path, path: url, httpMethod: "GET", headers, multiValueHeaders: {}, pathParameters: {}, queryStringParameters: {}, requestContext: { path: `/prod${url}` } }, { awsRequestId: "r" }))());
        e = { at: w.now, result };
      } catch (x) {
        if (x.hung) return { status: 504, hung: true };
        return { status: x.message === "Unauthorized" ? 401 : 500, error: String(x) };
      }
      if (ttl > 0) cache.set(key, e);
    }
    let allow = false;
    for (const s of e.result?.policyDocument?.Statement ?? []) {
      if (![].concat(s.Action).some((x) => iamMatch(x, "execute-api:Invoke")) || ![].concat(s.Resource).some((x) => iamMatch(x, arn))) continue;
      if (s.Effect === "Deny") return { status: 403 };
      allow = true;
    }
    if (!e.result?.principalId) return { status: 500 };
    return allow ? { status: 200, context: e.result.context } : { status: 403 };
  }
  const image = (route, url) => {
    const parts = url.split("/").filter(Boolean);
    const path = Object.fromEntries(route.parts.map((x, n) => [x.replace(/[{}]/g, ""), parts[n]]));
    const map = route.integration.RequestParameters ?? {};
    const uri = res(route.integration.Uri).replace(/\{(\w+)\}/g, (_, k) => {
      const from = map[`integration.request.path.${k}`] ?? "";
      return path[from.replace("method.request.path.", "")] ?? "";
    });
    const key = /:s3:path\/(.*)$/.exec(uri)?.[1];
    const perms = permissions(cfn, route.integration.Credentials, res);
    const arn = `arn:aws:s3:::${key}`;
    if (!perms?.allows("s3:GetObject", arn)) return { status: 403, why: "role" };
    return objects.has(key) ? { status: 200, text: objects.get(key) } : { status: 404, text: "not found" };
  };
  async function request(url, headers, apiKey) {
    const [route] = api.find("GET", url) ?? [];
    if (!route) return { status: 403 };
    let context = {};
    if (route.auth === "CUSTOM") {
      const g = await gate(route, url, headers);
      if (g.status !== 200) return { ...g, route };
      context = { authorizer: { principalId: "user", ...g.context } };
    }
    if (route.key && !apiKey) return { status: 403, route };
    if (!route.fn) return { ...image(route, url), route };
    return api.call("GET", url, { headers, context });
  }
  w.sql.fail = () => (fault ? { error: { message: "out of memory", code: "53200" } } : undefined);
  const rows = (wanted) => world.list.filter((c) => wanted.includes(c.group)).map((c) => JSON.stringify({ id: c.id, name: c.name, cameraGroupId: c.group, lastUpdated: new Date(c.at).toISOString(), latitude: c.lat, longitude: c.lon })).sort();
  const shown = (r) => {
    try {
      return JSON.parse(r.text).map((x) => JSON.stringify({ id: x.id, name: x.name, cameraGroupId: x.cameraGroupId, lastUpdated: x.lastUpdated && new Date(x.lastUpdated).toISOString(), latitude: x.latitude, longitude: x.longitude })).sort();
    } catch {
      return `not a list: ${String(r.text).slice(0, 80)}`;
    }
  };
  let through = 0;
  let last;
  for (let n = 0; n < rng.int(6, 16); n++) {
    w.now += rng.pick([0, 1000, 1000, 60_000, 200_000, 400_000]);
    fault = rng.bool(0.06) ? 1 : 0;
    ctx.observe("calls");
    // people come back, for the same or another image
    const again = last && rng.bool(0.45) ? last : undefined;
    const [name, u] = again && rng.bool(0.85) ? again.user : rng.pick([...users]);
    const c = again && rng.bool(0.7) ? again.c : rng.pick(world.list);
    const other = rng.pick(world.groups);
    last = { user: [name, u], c };
    if (!again && rng.bool(0.3)) {
      // the ones protected by a key see the cameras of Saimaa
      const key = rng.bool(0.7);
      const base = rng.pick(["/api/marinecam/ibnet", "/api/marinecam/cameras"]);
      const listing = rng.bool(0.5);
      const r = await request(listing ? `${base}/metadata` : `${base}/${c.id}.jpg`, {}, key);
      const about = { base, listing, key, status: r.status, camera: c, text: r.text?.slice(0, 300) };
      if (!key) ctx.expect(r.status === 403, "key:open", "images or metadata are given without a key", about);
      else if (listing && fault) {
        ctx.observe("reader-errors");
        ctx.expect(r.status >= 500, "key:error", "a failure of the database looks like an answer", about);
      } else if (listing) {
        ctx.observe("key-listed");
        ctx.equal({ status: r.status, list: shown(r) }, { status: 200, list: rows(["Saimaa"]) }, "key:metadata", "the metadata of the keyed API are not those of its cameras", about);
      } else ctx.equal({ status: r.status, text: r.status === 200 ? r.text : undefined }, c.group === "Saimaa" ? { status: 200, text: `image of ${c.id}` } : { status: 404, text: undefined }, "key:image", "the image of the keyed API is not the camera's", about);
      continue;
    }
    // the ones protected by a password see the cameras of their groups
    const wrong = rng.bool(0.2);
    const plain = `${name}:${wrong ? rng.pick([u.password + "x", u.password.slice(1), "", "x", u.password.toUpperCase() + "1"]) : u.password}`;
    const auth = rng.bool(0.1) ? rng.pick([undefined, "", "Basic", "Basic ", "Basic !!", `Basic ${Buffer.from(name).toString("base64")}`, `Basic ${Buffer.from(":").toString("base64")}`, `Basic ${Buffer.from(`:${u.password}`).toString("base64")}`]) : `Basic ${Buffer.from(plain).toString("base64")}`;
    const headerName = rng.pick(["Authorization", "authorization", "AUTHORIZATION"]);
    if (headerName !== "authorization") ctx.observe("header-other-case");
    const headers = { Host: "x", ...(auth !== undefined && { [headerName]: auth }) };
    const bad = auth === undefined || !auth.includes(" ") || Buffer.from(auth.split(" ")[1] ?? "", "base64").toString() !== plain;
    const listing = rng.bool(0.3);
    const folder = rng.bool(0.85) ? c.group : other;
    if (/[^\w-]/.test(folder) && !listing) continue; // how the platform encodes such a path is its own
    const url = listing ? "/cameras/metadata" : `/cameras/${folder}/${c.id}.jpg`;
    const r = await request(url, headers, false);
    const groups = u.groups ?? [];
    const about = { url, auth, header: headerName, user: { name, ...u }, wrong, status: r.status, text: r.text?.slice(0, 300), error: r.error };
    if (u.state !== "ok") ctx.observe("new-password");
    if (!ctx.expect(!r.hung, "password:hung", "the authorizer never answers", about)) continue;
    if (bad) {
      ctx.observe("unauthorized");
      ctx.expect([401, 403].includes(r.status), "password:anonymous", "a request without credentials is not refused as such", about);
      continue;
    }
    const right = !wrong && u.state === "ok";
    const member = listing || groups.includes(folder);
    if (!wrong && u.state === "challenge" && (r.status === 200 || r.status === 404 || (fault && r.status >= 500)) && member) continue; // the new password may be taken into use at once
    if (!right || !member) {
      ctx.observe("denied");
      ctx.expect(u.state === "throws" && !wrong ? r.status >= 400 : [401, 403].includes(r.status), "password:denied", "someone not entitled is not refused", about);
      continue;
    }
    if (listing && fault && groups.length) {
      ctx.observe("reader-errors");
      ctx.expect(r.status >= 500, "password:error", "a failure of the database looks like an answer", about);
      continue;
    }
    through++;
    ctx.observe("allowed");
    if (listing) {
      ctx.observe("listed");
      ctx.equal({ status: r.status, list: shown(r) }, { status: 200, list: rows(groups) }, "password:metadata", "the metadata a user gets are not those of the user's groups", about);
    } else ctx.equal({ status: r.status, text: r.status === 200 ? r.text : undefined }, folder === c.group ? { status: 200, text: `image of ${c.id}` } : { status: 404, text: undefined }, "password:image", "a user entitled to an image does not get it", about);
  }
  ctx.case(through ? ["visits", i] : undefined);
}

// Monitoring of the services: an outside monitor is kept in step with the published interfaces,
// is silent during breaks of maintenance, and what differs from the status page is told.
import { run, service } from "./P33.mjs";
import { repo } from "../harness/hooks.mjs";

const GH = "api.github.com";
const NP = "api.nodeping.com";
const APPS = ["Road", "Marine", "Rail", "Parking", "Catalog"];
const CFG = {
  defaultLambdaDurationSeconds: 60, secretId: "app-secret", nodePingTimeoutSeconds: 30, nodePingCheckInterval: 5, allowFromIpAddresses: [], cStatePageUrl: "https://status.test/page", gitHubRepo: "the-repo", gitHubOwner: "the-owner", gitHubBranch: "the-branch", gitHubWorkflowFile: "update.yml", gitHubUpdateMaintenanceWorkflowFile: "maintenance.yml",
};
const SECRET = { nodePingToken: "TOKEN-1", nodePingSubAccountId: "SUB-1", nodePingContactIdSlack1: "SLACK-1", nodePingContactIdSlack2: "SLACK-2", reportUrl: "https://slack.test/hook", gitHubPat: "PAT-1" };
const CONTACT = `GitHub Actions for status ${CFG.gitHubBranch}`;
const USER = "internal-digitraffic-status";
const MIN = 6e4;

export default {
  id: "P36",
  rule: "A case is one history of a monitor, a status page and published interfaces; non-trivial when something was changed or told.",
  assumptions: ["NodePing, cState, GitHub and Slack are stand-ins of their documented interfaces.", "A path does not hold the name of another app."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ "update:runs": 120, "update:created": 450, "update:changed": 200, "update:left": 2000, "update:contact": 8, "update:fault": 8, "update:again": 4, "update:idle": 30, "update:unread": 1, "update:query": 120, "update:not-callable": 700, "break:runs": 700, "break:started": 90, "break:ended": 90, "break:nothing": 350, "break:stuck": 40, "break:single": 70, "break:fault": 50, "break:early": 15, "sync:runs": 130, "sync:told": 70, "sync:silent": 30, "sync:missing-page": 60, "sync:missing-check": 60, "sync:differs": 100, "sync:during": 25, "sync:other-app": 180, "sync:fault": 6 })) ctx.require(k, n);
    const real = globalThis.fetch;
    const monitored = (await repo("other/status/src/monitored-apps.ts")).monitoredApps;
    try {
      await run(ctx, "other/status", "status-stack", "StatusStack", CFG, (c, w, conf, routes, i) => history(c, w, conf, routes, i, monitored, real), ctx.n(110, 1200), "create table none(id INTEGER);");
    } finally {
      globalThis.fetch = real;
    }
  },
};

async function history(ctx, w, conf, routes, index, monitored, real) {
  w.now = Date.UTC(2024, ctx.rng.int(0, 11), ctx.rng.int(1, 28), ctx.rng.int(0, 23), ctx.rng.int(0, 59), ctx.rng.int(0, 59), ctx.rng.int(0, 999));
  const s = service(ctx, w, conf, routes, "update-status");
  const { rng } = s;
  w.secret(SECRET);
  globalThis.fetch = async (input, init) => {
    const r = input instanceof Request ? input : new Request(input, init);
    const u = new URL(r.url);
    if (u.protocol !== "https:") return real(input, init);
    const body = r.body ? await r.arrayBuffer() : undefined;
    return real(`${w.url}/@${u.host}${u.pathname}${u.search}`, { method: r.method, headers: r.headers, body, signal: r.signal });
  };

  // ---- the monitor ----
  const checks = new Map();
  const contacts = new Map();
  let n = 0;
  const page = { baseURL: "https://status.test", pinnedIssues: [], systems: [] };
  const docs = new Map();
  const log = []; // what was changed or told
  let fault; // (kind) => true | "after"
  let seen = []; // kinds of requests of a run
  let hit = [];
  const stuck = new Set(); // cannot be disabled, or enabled
  const put = (c, b) => {
    for (const k of ["label", "type", "interval", "notifications"]) if (b[k] !== undefined) c[k] = b[k];
    for (const k of ["target", "method", "threshold", "sendheaders", "postdata", "contentstring", "invert", "regex", "follow"]) if (b[k] !== undefined) c.parameters[k] = b[k];
    if (b.enabled !== undefined && !stuck.has(c._id)) Object.assign(c, { enable: b.enabled ? "active" : "inactive", byAll: false });
  };
  const view = (c) => ({ ...c, byAll: undefined });
  w.serve = undefined;
  const serve = async (r) => {
    const m = /^\/@([^/]+)(\/.*)?$/.exec(r.path);
    if (!m) return { status: 404, body: { bad: r.path } };
    const [host, p] = [m[1], m[2] ?? "/"];
    const body = r.body.length ? JSON.parse(r.body.toString()) : undefined;
    const kind = host === NP ? `${r.method} ${p.replace("/api/1", "").replace(/\/C\d+$/, "/id")}${r.query.has("disableall") ? "?disableall" : ""}` : host === GH ? "dispatch" : host === "slack.test" ? "slack" : host === "status.test" ? "page" : "doc";
    seen.push(kind);
    const f = fault?.(kind);
    if (f) hit.push(kind);
    const refuse = { status: r.method === "POST" && rng.bool(0.4) ? 500 : rfault(), body: { error: "refused" } };
    if (f && f !== "after") return refuse;
    const answer = (() => {
      if (host === NP) {
        if (r.method === "GET") {
          const auth = Buffer.from(String(r.headers.authorization ?? "").replace(/^Basic /, ""), "base64").toString().replace(/:$/, "");
          if (auth !== SECRET.nodePingToken || r.query.get("customerid") !== SECRET.nodePingSubAccountId) return { status: 403, body: { error: "auth" } };
          if (p === "/api/1/checks") return { body: Object.fromEntries([...checks].map(([k, c]) => [k, view(c)])) };
          if (p === "/api/1/contacts") return { body: Object.fromEntries(contacts) };
        } else {
          if (body?.token !== SECRET.nodePingToken || body?.customerid !== SECRET.nodePingSubAccountId) return { status: 403, body: { error: "auth" } };
          const { token, customerid, ...b } = body;
          if (r.method === "POST" && p === "/api/1/checks") {
            const id = `C${++n}`;
            log.push({ what: "create", b });
            const c = { _id: id, label: "", type: "HTTPADV", enable: "inactive", state: 1, interval: 15, notifications: [], parameters: { target: "", method: "GET", threshold: 5 } };
            checks.set(id, c);
            put(c, b);
            return { body: view(c) };
          }
          if (r.method === "POST" && p === "/api/1/contacts") {
            const id = `K${++n}`;
            log.push({ what: "contact", b });
            contacts.set(id, { name: b.name, custrole: b.custrole, addresses: Object.fromEntries((b.newaddresses ?? []).map((a) => [`A${++n}`, a])) });
            return { body: contacts.get(id) };
          }
          if (r.method === "PUT" && p === "/api/1/checks" && r.query.has("disableall")) {
            const off = r.query.get("disableall") === "true";
            log.push({ what: off ? "off" : "on" });
            for (const c of checks.values()) {
              if (stuck.has(c._id)) continue;
              if (off && c.enable === "active") Object.assign(c, { enable: "inactive", byAll: true });
              else if (!off && c.byAll) Object.assign(c, { enable: "active", byAll: false });
            }
            const on = [...checks.values()].filter((c) => c.enable === "active").length;
            return { body: { enabled: on, disabled: checks.size - on, disableall: off ? 1 : 0 } };
          }
          const one = /^\/api\/1\/checks\/(.+)$/.exec(p)?.[1] ?? b.id;
          if (r.method === "PUT" && p.startsWith("/api/1/checks") && checks.has(one)) {
            log.push({ what: Object.keys(b).join() === "enabled" ? "single" : "change", id: one, b });
            put(checks.get(one), b);
            return { body: view(checks.get(one)) };
          }
        }
      }
      if (host === GH) {
        log.push({ what: "dispatch", url: `https://${host}${p}`, auth: r.headers.authorization, b: body });
        return { status: 204, body: "" };
      }
      if (host === "slack.test" && p === "/hook") {
        log.push({ what: "slack", text: body?.text });
        return { body: "ok" };
      }
      if (host === "status.test" && p === "/page/index.json") return { body: page };
      if (docs.has(`https://${host}${p}`)) return { body: docs.get(`https://${host}${p}`) };
      return { status: 404, body: { unknown: r.url } };
    })();
    if (answer.status === 403) log.push({ what: "not-allowed", url: r.url });
    if (answer.status === 404) log.push({ what: "unknown", url: r.url, method: r.method });
    return f === "after" ? refuse : answer;
  };
  const rfault = () => rng.pick([400, 404, 409]);
  const invoke = async (name) => {
    const fn = Object.values(conf.functions).find((f) => f.wanted.includes(`/lambda/${name}/`)).id;
    log.length = 0;
    seen = [];
    hit = [];
    w.serve = serve;
    let error;
    try {
      await (await s.q.load(fn))({}, { awsRequestId: "x" });
    } catch (e) {
      error = e;
    }
    const done = { error, log: [...log], seen: [...seen], hit: [...hit] };
    fault = undefined;
    // nothing is under way any more
    await new Promise((x) => setTimeout(x, error ? 20 : 2));
    const late = log.slice(done.log.length);
    ctx.expect(!late.length, "run:late", "the monitor is changed after a run ended", { name, late });
    ctx.expect(!done.log.some((l) => l.what === "not-allowed" || l.what === "unknown"), "run:asked", "something is asked that is not there, or without the right to it", { name, log: done.log.filter((l) => ["not-allowed", "unknown"].includes(l.what)) });
    return done;
  };
  const headerOf = (h, k) => Object.entries(h ?? {}).find(([x]) => x.toLowerCase() === k)?.[1];

  if (index % 3 === 0) await updates();
  else if (index % 3 === 1) await breaks();
  else await differences();

  // ---- the checks follow the published interfaces ----
  async function updates() {
    for (let i = 0; i < rng.int(0, 2); i++) contacts.set(`K${++n}`, { name: rng.pick(["Other contact", "GitHub Actions for status other-branch", `${CONTACT}-2`, "GitHub Actions for status the"]), custrole: "notify", addresses: { [`A${++n}`]: { address: "x" } } });
    if (rng.bool(0.4)) contacts.set("K0", { name: CONTACT, custrole: "notify", addresses: { GHA: { address: "x" } } });
    const paths = new Map(monitored.filter((a) => a.hasOpenApiSpec !== false).map((a) => [a.name, {}]));
    const grow = (app, k) => {
      for (let i = 0; i < k; i++) {
        const base = `/api/${rng.pick(["ais", "weather", "tms", "v1/trains", "ports", "hubs"])}/v${rng.int(1, 3)}/${rng.pick(["data", "sites", "all", "latest"])}${++n}`;
        const how = rng.int(0, 9);
        // the same path in another app
        if (rng.bool(0.2)) {
          const other = rng.pick([...paths.values()]);
          const q = rng.pick([...Object.keys(other), undefined]);
          if (q && !monitored.some((a) => a.excluded.includes(q) || a.endpoints.some((e) => e.name === q))) {
            paths.get(app)[q] ??= other[q];
            continue;
          }
        }
        const par = (name, required, d) => ({ name, in: "query", required, schema: d === undefined ? {} : { default: d } });
        const p = paths.get(app);
        if (how < 4) p[base] = { get: { tags: ["x"] }, ...(rng.bool(0.3) ? { post: {} } : {}) };
        else if (how === 4) p[base] = { get: { parameters: [par("a", false), par("b", false, "z")] } };
        else if (how === 5) p[base] = { get: { parameters: [par("opt", false, "no"), par("lang", true, rng.pick(["fi", "en"])), par("types", true, rng.pick([["A"], ["A", "B"]]))] } };
        else if (how === 6) p[base] = { get: { parameters: [par("lang", true, "fi"), par("id", true, rng.pick([undefined, "", []]))] } };
        else if (how === 7) p[base + "/{id}"] = { get: {} };
        else if (how === 8) p[base] = { post: {}, put: {} };
        else p[base.replace("/api/", rng.pick(["/api/beta/", "/api/x-beta-"]))] = { get: {} };
      }
    };
    for (const a of paths.keys()) grow(a, rng.int(0, 7));
    // some of what is left out is published as well
    for (const a of monitored) if (paths.has(a.name)) for (const e of a.excluded) {
      if (rng.bool(0.6)) paths.get(a.name)[e] = { get: {} };
      if (rng.bool(0.3)) paths.get(a.name)[e + rng.pick(["-simple", "/all", "s"])] = { get: {} };
    }
    const callable = (p, it) => {
      if (!it.get || p.includes("{") || p.includes("beta")) return undefined;
      const req = (it.get.parameters ?? []).filter((x) => x.required);
      if (req.some((x) => !x.schema.default?.length)) return undefined;
      return p + (req.length ? "?" : "") + req.map((x) => [x.schema.default].flat().map((v) => `${x.name}=${v}`).join("&")).join("&");
    };
    const wanted = () => {
      const out = [];
      for (const a of monitored) {
        const e = Object.entries(paths.get(a.name) ?? {}).map(([p, it]) => callable(p, it));
        ctx.observe("update:not-callable", e.filter((x) => !x).length);
        ctx.observe("update:query", e.filter((x) => x?.includes("?")).length);
        for (const x of e) if (x && !a.excluded.includes(x)) out.push({ app: a.name, name: x, target: a.hostPart + x });
        for (const x of a.endpoints) out.push({ app: a.name, name: x.name, target: x.url, extra: x });
      }
      return out.map((x) => ({ ...x, label: x.name.includes(x.app) ? x.name : `${x.app} ${x.name}` }));
    };
    const github = () => Object.keys([...contacts.values()].find((c) => c.name === CONTACT)?.addresses ?? {})[0];
    const people = (label) => ["SLACK-1", "SLACK-2", ...(label.toLowerCase().includes("beta") ? [] : [github() ?? "?"])];
    const ids = (c) => c.notifications.flatMap((x) => Object.keys(x)).sort();
    const ideal = (label, x) => ({ threshold: CFG.nodePingTimeoutSeconds, interval: CFG.nodePingCheckInterval, method: x?.extra?.method ?? "HEAD", people: people(label).sort() });
    const wrong = (c, x) => {
      const i = ideal(c.label, x);
      const out = [];
      if (c.parameters.threshold !== i.threshold) out.push("threshold");
      if (c.interval !== i.interval) out.push("interval");
      if (c.type === "HTTPADV" && headerOf(c.parameters.sendheaders, "digitraffic-user") !== USER) out.push("user");
      if (x?.extra?.protocol === 1 ? c.type !== "WEBSOCKET" : c.parameters.method !== i.method) out.push("method");
      if (x?.extra && c.parameters.target !== x.extra.url) out.push("target");
      if (JSON.stringify(ids(c)) !== JSON.stringify(i.people)) out.push("contacts");
      return out;
    };
    // ---- what was there before ----
    const mine = (c) => monitored.find((a) => c.label.toLowerCase().includes(a.name.toLowerCase()))?.name;
    const wantedBy = (c, all) => all.find((x) => x.label === c.label || (x.name === c.label) || (x.extra && mine(c) === x.app && x.extra.url === c.parameters.target));
    const notify = (l) => l.map((k) => ({ [k]: { delay: 0, schedule: "All" } }));
    const before = wanted();
    for (const x of before) {
      if (rng.bool(0.55)) continue;
      const id = `C${++n}`;
      const label = x.label;
      const gh = github();
      const c = { _id: id, label, type: x.extra?.protocol === 1 ? "WEBSOCKET" : "HTTPADV", enable: rng.bool(0.9) ? "active" : "inactive", state: rng.int(0, 1), interval: CFG.nodePingCheckInterval, notifications: notify(["SLACK-1", "SLACK-2", gh ?? "GHA-OLD"]), parameters: { target: x.target, method: x.extra?.method ?? "HEAD", threshold: CFG.nodePingTimeoutSeconds, sendheaders: { "accept-encoding": "gzip", [rng.pick(["digitraffic-user", "Digitraffic-User"])]: USER } } };
      if (rng.bool(0.4)) {
        const k = rng.int(0, 7);
        if (k === 0) c.parameters.threshold = 5;
        else if (k === 1) c.interval = 1;
        else if (k === 2) c.parameters.sendheaders = rng.pick([undefined, {}, { "digitraffic-user": "someone" }]);
        else if (k === 3) c.parameters.method = c.parameters.method === "GET" ? "HEAD" : "GET";
        else if (k === 4) c.notifications = c.notifications.slice(1);
        else if (k === 5) c.notifications.push(...notify(["SOMEONE"]));
        else if (k === 6 && x.extra) c.parameters.target = "https://old.test/place";
        else c.notifications = [];
      }
      checks.set(id, c);
    }
    // somebody else's, and beta interfaces of old
    for (const label of ["Liikennetilanne", "Some other thing"]) checks.set(`C${++n}`, { _id: `C${n}`, label, type: "HTTPADV", enable: "active", state: 1, interval: 15, notifications: [], parameters: { target: "https://x.test", method: "GET", threshold: 1 } });
    const gh0 = github();
    if (rng.bool(0.6)) checks.set(`C${++n}`, { _id: `C${n}`, label: "Marine /api/beta/x", type: "HTTPADV", enable: "active", state: 1, interval: CFG.nodePingCheckInterval, notifications: notify(rng.bool() ? ["SLACK-1", "SLACK-2"] : ["SLACK-1", "SLACK-2", gh0 ?? "GHA"]), parameters: { target: "https://meri.digitraffic.fi/api/beta/x", method: "HEAD", threshold: 30, sendheaders: { "digitraffic-user": USER } } });

    let failed = false;
    const runs = rng.int(3, 6);
    for (let r = 0; r < runs; r++) {
      w.now += rng.int(1, 3) * 60 * MIN;
      if (r && rng.bool(0.5)) for (const a of paths.keys()) if (rng.bool(0.5)) grow(a, rng.int(0, 2));
      docs.clear();
      for (const a of monitored) if (paths.has(a.name)) docs.set(a.url, { openapi: "3.0.1", paths: paths.get(a.name) });
      const all = wanted();
      const snap = new Map([...checks].map(([k, c]) => [k, structuredClone(c)]));
      const hadContact = !!github();
      const broken = rng.bool(0.35) ? rng.pick(["doc", "GET /checks", "GET /contacts", "POST /contacts", "POST /checks", "POST /checks", "PUT /checks", "POST /checks after"]) : undefined;
      if (broken) {
        const [, k, after] = /^(.*?)( after)?$/.exec(broken);
        let at = rng.int(0, 4);
        fault = (x) => (x === k && at-- === 0 ? (after ? "after" : true) : undefined);
      }
      ctx.case(`update ${index}/${r}`, true);
      const got = await invoke("update-status");
      ctx.observe("update:runs");
      const about = { run: r, error: String(got.error ?? ""), hit: got.hit };
      const created = got.log.filter((l) => l.what === "create");
      const changed = got.log.filter((l) => l.what === "change");
      ctx.expect(!got.log.some((l) => ["off", "on", "single", "slack", "dispatch"].includes(l.what)), "update:other", "an update of checks does something else", { ...about, log: got.log.map((l) => l.what) });
      ctx.expect(!!got.error === got.hit.length > 0, got.hit.length ? "update:hidden" : "update:failure", got.hit.length ? "an update that failed ends as if it had not" : "an update fails", about);
      // ---- what was created is wanted and was missing ----
      const labels = [...snap.values()].map((c) => c.label);
      const gh = github();
      for (const { b } of created) {
        const x = all.find((y) => y.label === b.label);
        if (!ctx.expect(!!x, "update:unwanted", "a check is created of what is not to be monitored", { ...about, b })) continue;
        ctx.expect(!labels.includes(x.label) && !labels.includes(x.name), "update:again-created", "a check that exists is created again", { ...about, b });
        labels.push(x.label);
        const e = x.extra;
        const content = { label: x.label, type: e?.protocol === 1 ? "WEBSOCKET" : "HTTPADV", target: x.target, interval: CFG.nodePingCheckInterval, threshold: CFG.nodePingTimeoutSeconds, enabled: true, follow: true, method: e?.protocol === 1 ? undefined : e?.method ?? "HEAD", notifications: notify(people(x.label)), sendheaders: { "accept-encoding": "gzip", "digitraffic-user": USER, ...(e?.sendData ? { "content-type": "application/json" } : {}) }, ...(e?.sendData ? { postdata: e.sendData } : {}), ...(e?.contentstring ? { contentstring: e.contentstring, invert: e.invert ?? false, regex: e.regex ?? false } : {}) };
        ctx.equal(b, JSON.parse(JSON.stringify(content)), "update:content", "a check is not created as it is to be", { ...about, b });
        ctx.observe("update:created");
      }
      for (const { b, id } of changed) {
        const old = snap.get(id);
        const x = wantedBy(old, all);
        if (!ctx.expect(!!mine(old), "update:others", "a check of someone else is changed", { ...about, old, b })) continue;
        ctx.expect(wrong(old, x).length > 0, "update:needless", "a check that is as it is to be is changed", { ...about, old, b });
        const now = checks.get(id);
        ctx.expect(!wrong(now, x).length, "update:changed", "a changed check is still not as it is to be", { ...about, old, b, wrong: wrong(now, x) });
        ctx.expect(now.label === old.label && now.enable === old.enable && (x?.extra || now.parameters.target === old.parameters.target), "update:changed:else", "a change of a check changes what was as it is to be", { ...about, old, b });
        ctx.equal(headerOf(b.sendheaders, "content-type"), x?.extra?.sendData ? "application/json" : undefined, "update:changed:headers", "a changed check sends other headers than it is to", { ...about, old, b });
        ctx.equal([b.postdata, b.contentstring, b.invert], [x?.extra?.sendData, x?.extra?.contentstring, x?.extra?.contentstring ? (x.extra.invert ?? false) : undefined], "update:changed:extra", "a changed check does not look for what it is to", { ...about, old, b });
        ctx.observe("update:changed");
      }
      for (const [id, old] of snap) if (!changed.some((c) => c.id === id)) (ctx.equal(checks.get(id), old, "update:left", "a check is changed on the side", about), ctx.observe("update:left"));
      for (const { b } of got.log.filter((l) => l.what === "contact")) {
        ctx.expect(!hadContact, "update:contact:again", "a contact that exists is created again", { ...about, b });
        ctx.equal(b, { name: CONTACT, custrole: "notify", newaddresses: [{ address: "https://api.github.com/repos/the-owner/the-repo/actions/workflows/update.yml/dispatches", type: "webhook", action: "post", headers: { Accept: "application/vnd.github+json", "Content-Type": "application/vnd.github+json", Authorization: "token PAT-1" }, data: { ref: "refs/heads/the-branch" } }] }, "update:contact", "the contact that tells the status page is not as it is to be", about);
        ctx.observe("update:contact");
      }
      if (got.hit.length) {
        failed = true;
        ctx.observe("update:fault");
        if (got.hit.includes("doc")) {
          ctx.observe("update:unread");
          ctx.expect(!got.log.length, "update:unread", "checks are changed though an interface could not be read", { ...about, log: got.log });
        }
        continue;
      }
      if (failed) ctx.observe("update:again");
      failed = false;
      if (!created.length && !changed.length) ctx.observe("update:idle");
      // ---- all that is to be monitored is ----
      for (const x of all) {
        const c = [...checks.values()].filter((y) => y.label === x.label || y.label === x.name);
        if (ctx.expect(c.length === 1, "update:once", "what is to be monitored does not have exactly one check", { ...about, x, checks: c.length })) ctx.expect(!wrong(c[0], x).length, "update:settings", "a check is not as it is to be after an update", { ...about, x, check: c[0], wrong: wrong(c[0], x) });
      }
      for (const c of checks.values()) if (mine(c) && !all.some((x) => x.label === c.label || x.name === c.label)) ctx.expect(!wrong(c, undefined).length, "update:settings:old", "a check of an interface of old is not as it is to be after an update", { ...about, check: c, wrong: wrong(c, undefined) });
      ctx.expect(!!gh, "update:contact:none", "there is no contact that tells the status page", about);
    }
  }

  // ---- breaks of maintenance ----
  async function breaks() {
    const size = rng.int(1, 6);
    for (let i = 0; i < size; i++) checks.set(`C${++n}`, { _id: `C${n}`, label: `${rng.pick(APPS)} /api/x${i}`, type: "HTTPADV", enable: rng.bool(0.85) ? "active" : "inactive", state: rng.int(0, 1), interval: 5, notifications: [], parameters: { target: "x", method: "HEAD", threshold: 30 } });
    const cstate = (t) => `${new Date(t).toISOString().replace("T", " ").replace("Z", rng.pick(["", "671", "1"]))} +0000 UTC`;
    let issues = [];
    let untold;
    for (let r = 0, runs = rng.int(20, 40); r < runs; r++) {
      w.now += MIN;
      // ---- the status page is written ----
      issues = issues.filter((i) => w.now < i.ends);
      if (issues.length < 3 && rng.bool(0.15)) {
        const at = w.now + rng.pick([rng.int(-9, -1) * MIN, rng.int(1, 6) * MIN, rng.int(5, 50) * 1000]);
        const kind = rng.pick(["digitraffic-maintenance", "digitraffic-maintenance", "digitraffic-maintenance", "maintenance", "incident"]);
        issues.push({ ends: at + rng.int(2, 9) * MIN, at, kind, json: { is: "issue", title: `Break ${r}`, createdAt: cstate(at), lastMod: cstate(at), permalink: `https://status.test/issues/${kind}/m${r}/`, affected: [], filename: `m${r}.md` } });
        issues = rng.shuffle(issues);
      }
      page.pinnedIssues = issues.map((i) => i.json);
      // ---- and people look at the monitor ----
      if (rng.bool(0.08)) Object.assign(rng.pick([...checks.values()]), { enable: rng.pick(["active", "inactive"]), byAll: false });
      if (rng.bool(0.06)) stuck.has("C1") ? stuck.delete("C1") : stuck.add("C1");
      const active = issues.find((i) => i.kind === "digitraffic-maintenance" && i.at < w.now + MIN);
      if (active && active.at > w.now) ctx.observe("break:early");
      const near = issues.some((i) => Math.abs(i.at - w.now - MIN) < 2000);
      const snap = new Map([...checks].map(([k, c]) => [k, { ...c }]));
      const on = [...snap.values()].filter((c) => c.enable === "active").length;
      const off = snap.size - on;
      if (rng.bool(active && on ? 0.35 : 0.12)) {
        const k = rng.pick(["page", "GET /checks", "PUT /checks?disableall", "dispatch", "slack", "PUT /checks/id"]);
        fault = (x) => x === k;
      }
      const got = await invoke("handle-maintenance");
      ctx.observe("break:runs");
      if (near) continue;
      const what = got.log.map((l) => l.what);
      const about = { run: r, active: active?.json, on, off, what, hit: got.hit, error: String(got.error ?? "") };
      ctx.case(`break ${index}/${r}`, what.length > 0);
      const hard = got.hit.filter((k) => k !== "slack");
      ctx.expect(!!got.error === hard.length > 0, hard.length ? "break:hidden" : "break:failure", hard.length ? "a look at maintenance that failed ends as if it had not" : "looking at maintenance fails", about);
      const told = got.log.find((l) => l.what === "slack")?.text;
      ctx.expect(what.filter((x) => x === "slack").length <= 1, "break:told-once", "the same is told many times", about);
      if (got.hit.length) {
        ctx.observe("break:fault");
        if (got.hit.includes("page") || got.hit.includes("GET /checks") && !what.length) {
          ctx.expect(!what.length, "break:blind", "checks are changed though it is not known if there is a break", about);
          continue;
        }
      }
      if (active && on) {
        ctx.observe("break:started");
        ctx.expect(!what.includes("on") && !what.includes("single"), "break:start:on", "checks are enabled during a break", about);
        if (!hard.includes("PUT /checks?disableall")) {
          ctx.equal(what.filter((x) => x === "off").length, 1, "break:start", "checks are not disabled when a break starts", about);
          for (const c of checks.values()) ctx.expect(c.enable !== "active" || stuck.has(c._id), "break:start:left", "a check is left enabled when a break starts", { ...about, c });
        } else ctx.expect(!what.includes("slack") && !what.includes("dispatch"), "break:start:false", "a break is told of though checks could not be disabled", about);
        if (!hard.length) {
          const d = got.log.filter((l) => l.what === "dispatch");
          ctx.equal(d.map((l) => [l.url, l.auth, l.b]), [["https://api.github.com/repos/the-owner/the-repo/actions/workflows/maintenance.yml/dispatches", "token PAT-1", { ref: "refs/heads/the-branch", inputs: { baseUrl: page.baseURL, permalink: active.json.permalink } }]], "break:start:page", "the start of a break is not told to the status page as it is", about);
          if (!got.hit.length) ctx.expect(told?.includes(String(on)) && /disabled/i.test(told), "break:start:told", "the start of a break is not told", { ...about, told });
          untold = undefined;
        } else {
          ctx.expect(!what.includes("slack"), "break:start:told-false", "a break is told of that could not be made known", about);
          if (hard.includes("dispatch")) untold = active;
        }
      } else if (!active && off) {
        ctx.observe("break:ended");
        ctx.expect(!what.includes("off") && !what.includes("dispatch"), "break:end:off", "checks are disabled though there is no break", about);
        if (hard.length) {
          ctx.expect(!what.includes("slack"), "break:end:told-false", "the end of a break is told of though checks could not be enabled", about);
          continue;
        }
        ctx.equal(what.filter((x) => x === "on").length, 1, "break:end", "checks are not enabled when a break ends", about);
        for (const c of checks.values()) ctx.expect(c.enable === "active" || stuck.has(c._id), "break:end:left", "a check is left disabled when a break has ended", { ...about, c });
        for (const l of got.log.filter((x) => x.what === "single")) (ctx.observe("break:single"), ctx.expect(snap.get(l.id).enable !== "active", "break:end:needless", "a check that is enabled is enabled again", { ...about, id: l.id }));
        const left = [...checks.values()].filter((c) => c.enable !== "active");
        if (left.length) ctx.observe("break:stuck");
        if (!got.hit.length) ctx.expect(told?.includes(`Enabled ${off} `) && left.every((c) => told.includes(JSON.stringify(c.label))) && /still \d+/.test(told) === left.length > 0 && (!left.length || told.includes(`still ${left.length} `)), "break:end:told", "the end of a break is not told as it is", { ...about, told, left: left.map((c) => c.label) });
      } else {
        ctx.observe("break:nothing");
        ctx.expect(!what.length, "break:nothing", "something is changed or told though nothing changes", about);
        for (const [k, c] of snap) ctx.equal(checks.get(k), c, "break:nothing:checks", "a check is changed though nothing changes", about);
        if (active && active === untold && !got.hit.length) ctx.violation("break:never-told", "the status page is never told of a break whose first telling failed", about);
      }
      if (!active) untold = undefined;
    }
  }

  // ---- the status page and the monitor are compared ----
  async function differences() {
    const NAMES = ["/api/ais/v1/locations", "/api/foo/v1/bar", "/api/v1/trains", "Swagger UI", "data is up to date", "infra-api", "infra-api Swagger", "Front Page", "/api/beta/x"];
    const slug = (x) => {
      const t = x.toLowerCase();
      return (t.startsWith("/") ? "" : "/") + (t.includes("-") && t.includes(" ") ? t.replaceAll(" ", "/") : t.replaceAll(" ", "-"));
    };
    for (let r = 0, runs = rng.int(4, 8); r < runs; r++) {
      w.now += 60 * MIN;
      checks.clear();
      page.systems = [];
      const same = rng.bool(0.25);
      const apps = rng.shuffle(["Road", "Marine", "Rail", "Parking"]).slice(0, rng.int(1, 3));
      const pairs = [];
      for (const app of apps) for (const name of rng.shuffle(NAMES).slice(0, rng.int(1, 5))) pairs.push({ app, name });
      for (const p of pairs) {
        const state = rng.bool(0.7) ? 1 : 0;
        // without a name of an app when no other app has the same
        const bare = name0(p.name) && pairs.filter((q) => q.name === p.name).length === 1 && rng.bool(0.3);
        if (same || rng.bool(0.85)) p.check = { _id: `C${++n}`, label: (bare ? p.name : `${p.app} ${p.name}`) + (p.name.startsWith("/") && rng.bool(0.1) ? "/" : ""), type: "HTTPADV", enable: "active", state, interval: 5, notifications: [], parameters: {} };
        const status = same ? (state ? rng.pick(["ok", "notice", "disrupted"]) : "down") : rng.pick(["ok", "ok", "notice", "disrupted", "down"]);
        if (same || rng.bool(0.85)) p.system = { name: `${p.app.toLowerCase()}${slug(p.name)}${rng.bool(0.15) ? "/" : ""}`, description: "x", category: p.app, status };
        if (same && p.name.includes("beta")) p.check = p.system = undefined;
      }
      for (const p of rng.shuffle(pairs)) if (p.check) checks.set(p.check._id, p.check);
      page.systems = rng.shuffle(pairs).filter((p) => p.system).map((p) => p.system);
      const during = rng.bool(0.25);
      page.pinnedIssues = during ? [{ title: "b", createdAt: `${new Date(w.now - rng.int(1, 99) * MIN).toISOString().replace("T", " ").replace("Z", "")} +0000 UTC`, permalink: "https://status.test/issues/digitraffic-maintenance/x/" }] : rng.bool(0.4) ? [{ title: "b", createdAt: `${new Date(w.now + rng.pick([5 * MIN, -5 * MIN])).toISOString().replace("T", " ").replace("Z", "")} +0000 UTC`, permalink: "https://status.test/issues/incidents/x/" }] : [];
      const want = [];
      for (const p of pairs) {
        const others = pairs.filter((q) => q !== p && q.name === p.name);
        if (others.length) ctx.observe("sync:other-app");
        if (p.check && !p.system && !p.name.includes("beta")) (want.push(`${p.check.label}: cState Statuspage system missing`), ctx.observe("sync:missing-page"));
        if (p.system && !p.check) (want.push(`${p.system.name}: NodePing check missing`), ctx.observe("sync:missing-check"));
        if (p.check && p.system && (p.check.state === 0) !== (p.system.status === "down")) {
          if (during) ctx.observe("sync:during");
          else (want.push(`${p.system.name}: NodePing check is ${p.check.state ? "UP" : "DOWN"}, cState statuspage component is ${p.check.state ? "DOWN" : "UP"}`), ctx.observe("sync:differs"));
        }
      }
      if (rng.bool(0.12)) {
        const k = rng.pick(["page", "GET /checks"]);
        fault = (x) => x === k;
      }
      const snap = JSON.stringify([...checks]);
      const got = await invoke("check-component-states");
      ctx.observe("sync:runs");
      ctx.case(`sync ${index}/${r}`, want.length > 0);
      const about = { checks: [...checks.values()].map((c) => [c.label, c.state]), systems: page.systems.map((x) => [x.name, x.status]), during, error: String(got.error ?? ""), hit: got.hit };
      ctx.expect(!!got.error === got.hit.length > 0, got.hit.length ? "sync:hidden" : "sync:failure", got.hit.length ? "a comparison that failed ends as if it had not" : "comparing fails", about);
      ctx.expect(got.log.every((l) => l.what === "slack") && snap === JSON.stringify([...checks]), "sync:changed", "comparing changes something", { ...about, log: got.log });
      if (got.hit.length) {
        ctx.observe("sync:fault");
        ctx.expect(!got.log.length, "sync:fault", "differences are told though not everything could be read", { ...about, log: got.log });
        continue;
      }
      ctx.observe(want.length ? "sync:told" : "sync:silent");
      ctx.equal(got.log.map((l) => String(l.text).split("\n").sort()), want.length ? [want.sort()] : [], "sync:told", "what differs from the status page is not what is told", about);
    }
  }
}
const name0 = (x) => x.startsWith("/api/") && !x.includes("beta");

import { lib } from "../harness/hooks.mjs";
import { FakeAws } from "../harness/fakeaws.mjs";
import { VirtualClock, realTimers } from "../harness/clock.mjs";
import { isDeepStrictEqual } from "node:util";

const sleep = (ms) => new Promise((r) => realTimers.setTimeout(r, ms));
const DB_ENV = ["DB_USER", "DB_PASS", "DB_URI", "DB_RO_URI"];

export default {
  id: "P03",
  rule: "A case is one read (or credential set-up, or environment-first lookup) made through the real holders against a secret store on loopback whose contents change over virtual time and which fails on demand; non-trivial when a value or an error came back and was judged against the store's version history.",
  assumptions: ["Secret values are non-empty strings; the store is the fake Secrets Manager endpoint reached by the real SDK client; clock is virtual for dates only."],
  async run(ctx) {
    ctx.require("reads", 500);
    ctx.require("refreshes", 50);
    ctx.require("cached-reads", 100);
    ctx.require("failed-reads", 30);
    const aws = await new FakeAws().start();
    const { SecretHolder } = await lib("aws/runtime/secrets/secret-holder.ts");
    const secretMod = await lib("aws/runtime/secrets/secret.ts");
    const { ProxyHolder } = await lib("aws/runtime/secrets/proxy-holder.ts");
    const { RdsHolder } = await lib("aws/runtime/secrets/rds-holder.ts");
    const clock = new VirtualClock(Date.now()).install({ timersToo: false });
    const store = new Map();
    let fault;
    let fetches = [];
    aws.handle = async (r) => {
      if (!/GetSecretValue$/.test(r.target ?? "")) return { status: 400, body: JSON.stringify({ __type: "UnknownOperationException" }) };
      const { SecretId } = JSON.parse(r.body);
      const f = fault;
      const value = store.get(SecretId);
      fetches.push({ id: SecretId, at: clock.now, version: value, region: r.region, fault: f });
      if (f === "error") return { status: 500, body: JSON.stringify({ __type: "InternalServiceError", message: "x" }) };
      if (f === "destroy") return { destroy: true };
      if (f === "empty") return { body: JSON.stringify({ Name: SecretId, SecretString: "" }) };
      if (f === "binary") return { body: JSON.stringify({ Name: SecretId, SecretBinary: "AAEC" }) };
      if (f === "malformed") return { body: JSON.stringify({ Name: SecretId, SecretString: "{not json" }) };
      if (!value) return { status: 400, body: JSON.stringify({ __type: "ResourceNotFoundException", message: "no" }) };
      if (f === "slow") await sleep(5);
      return { body: JSON.stringify({ Name: SecretId, SecretString: JSON.stringify(value) }) };
    };
    let uid = 0;
    const mkSecret = (rng, prefixes) => {
      const s = {};
      for (const k of ["username", "password", "host", "ro_host", "proxy_host", "proxy_ro_host"]) if (rng.bool(0.93)) s[k] = `${k}-${++uid}`;
      for (const p of prefixes) for (const k of ["url", "apikey", "a.b", "user"]) if (rng.bool(0.8)) s[`${p}.${k}`] = `${p}-${k}-${++uid}`;
      s[`${prefixes[0]}x.url`] = `decoy-${++uid}`;
      s.version = `v${++uid}`;
      return s;
    };
    const project = (s, prefix) => (prefix === "" ? s : Object.fromEntries(Object.entries(s).filter(([k]) => k.startsWith(prefix + ".")).map(([k, v]) => [k.slice(prefix.length + 1), v])));

    try {
      for (let h = 0; h < ctx.n(400, 4000); h++) {
        const rng = ctx.rng;
        const id = `secret-${h}`;
        const prefixes = ["app", "ap", "other.nested"];
        store.set(id, mkSecret(rng, prefixes));
        const ttl = rng.pick([undefined, undefined, 1, 60, 300, 3600]);
        const effTtl = (ttl ?? 300) * 1000;
        const prefix = rng.pick(["", "", ...prefixes]);
        const expected = rng.bool(0.5) ? rng.subset(["url", "apikey", "username", "user", "version"], 0.4) : [];
        process.env.SECRET_ID = id;
        const holder = ttl === undefined && rng.bool() ? SecretHolder.create(prefix, expected) : new SecretHolder(id, prefix, expected, ...(ttl === undefined ? [] : [{ ttl }]));
        fetches = [];
        const versions = [{ at: clock.now, v: store.get(id) }];
        let lastGoodFetch; // {at, version}
        for (let step = 0; step < rng.int(5, 20); step++) {
          const a = rng.int(0, 9);
          if (a < 3) {
            clock.now += rng.pick([1000, Math.floor(effTtl / 3), effTtl - 1000, effTtl + 1000, 2 * effTtl]);
          } else if (a < 5) {
            store.set(id, mkSecret(rng, prefixes));
            versions.push({ at: clock.now, v: store.get(id) });
          } else {
            fault = rng.bool(0.25) ? rng.pick(["error", "destroy", "empty", "binary", "malformed", "slow"]) : undefined;
            const n = rng.bool(0.2) ? rng.int(2, 4) : 1;
            const before = fetches.length;
            const now = clock.now;
            const rs = await Promise.all(Array.from({ length: n }, () => ctx.attempt(() => holder.get())));
            const made = fetches.slice(before);
            const fresh = lastGoodFetch && now - lastGoodFetch.at < effTtl;
            const stale = !lastGoodFetch || now - lastGoodFetch.at > effTtl;
            const broken = fault && fault !== "slow";
            const w = () => ({ ttl: effTtl / 1000, ageMs: lastGoodFetch && now - lastGoodFetch.at, fault, prefix, expected, fetches: made.length, parallel: n, got: rs.map((r) => (r.ok ? r.value : String(r.error))) });
            if (fresh) ctx.expect(made.length === 0, "refetch", "the store was read again although the cached secret had not expired", w);
            if (stale && made.length === 0) ctx.violation("stale", "a read after the time-to-live did not consult the store", w());
            if (made.length) ctx.observe("refreshes");
            else ctx.observe("cached-reads");
            if (made.length && !broken) lastGoodFetch = { at: now, version: store.get(id) };
            ctx.expect(made.every((m) => m.id === id), "wrong-id", "another secret than the configured one was read", w);
            for (const r of rs) {
              ctx.observe("reads");
              ctx.case({ h, step, prefix, expected, fault, age: lastGoodFetch && now - lastGoodFetch.at, r: r.ok ? r.value : "err" });
              if (broken && stale) {
                ctx.observe("failed-reads");
                ctx.expect(!r.ok, "failure-hidden", "a failed refresh produced a value instead of an error", w);
                continue;
              }
              if (!lastGoodFetch) continue;
              const want = project(lastGoodFetch.version, prefix);
              const missing = expected.filter((k) => !(k in want));
              if (missing.length) {
                ctx.observe("failed-reads");
                ctx.expect(!r.ok, "missing-keys", "a secret lacking expected keys was handed out", w);
              } else if (!r.ok) ctx.violation("read-failed", "a readable secret was not delivered", w());
              else ctx.expect(isDeepStrictEqual({ ...r.value }, want), "value", "the delivered secret is not the store's current content for the prefix", () => ({ want, ...w() }));
            }
          }
        }
        fault = undefined;

        // credentials in the environment
        for (const [H, map] of [
          [ProxyHolder, { DB_USER: "username", DB_PASS: "password", DB_URI: "proxy_host", DB_RO_URI: "proxy_ro_host" }],
          [RdsHolder, { DB_USER: "username", DB_PASS: "password", DB_URI: "host", DB_RO_URI: "ro_host" }],
        ]) {
          const marker = `before-${h}`;
          for (const e of DB_ENV) process.env[e] = marker;
          const s = store.get(id);
          const viaOwn = rng.bool(0.3);
          const keys = Object.values(map);
          const holder2 = viaOwn ? H.create(new SecretHolder(id, "", keys)) : H.create();
          const r = await ctx.attempt(() => holder2.setCredentials());
          const env = Object.fromEntries(DB_ENV.map((e) => [e, process.env[e]]));
          const complete = keys.every((k) => k in s);
          ctx.case({ H: H.name, s, complete });
          ctx.observe("credentials");
          const w = { holder: H.name, secret: s, env, error: r.ok ? undefined : String(r.error) };
          if (complete) ctx.equal(env, Object.fromEntries(Object.entries(map).map(([e, k]) => [e, s[k]])), "credentials", "database credentials in the environment are not the secret's", w);
          else {
            ctx.expect(!r.ok, "credentials-missing", "an incomplete database secret was accepted", w);
            ctx.expect(Object.values(env).every((x) => x === marker), "credentials-partial", "an incomplete database secret changed the environment", w);
          }
        }

        // direct read and environment-first lookup
        const p = rng.pick(["", ...prefixes]);
        const g = await ctx.attempt(() => secretMod.getSecret(id, ...(p || rng.bool() ? [p] : [])));
        ctx.case({ direct: h, p });
        ctx.expect(g.ok && isDeepStrictEqual({ ...g.value }, project(store.get(id), p)), "direct", "a direct read does not return the store's content for the prefix", { p, got: g.ok ? g.value : String(g.error), want: project(store.get(id), p) });
        const key = rng.pick(["username", "version", "absent", "app.url"]);
        const inEnv = rng.bool();
        const ev = rng.pick(["fromenv", "0", "x y"]);
        if (inEnv) process.env[key] = ev;
        else delete process.env[key];
        const e = await ctx.attempt(() => secretMod.getFromEnvOrSecret(key, id));
        delete process.env[key];
        const want = inEnv ? ev : store.get(id)[key];
        ctx.case({ env: h, key, inEnv });
        if (want === undefined) ctx.expect(!e.ok, "env-or-secret-missing", "a value that is neither in the environment nor in the secret was invented", { key, got: e.value });
        else ctx.expect(e.ok && e.value === want, "env-or-secret", "environment-first lookup returned the wrong value", { key, inEnv, want, got: e.ok ? e.value : String(e.error) });
        const nf = await ctx.attempt(() => secretMod.getSecret("no-such-" + h));
        ctx.expect(!nf.ok, "not-found", "a secret that does not exist produced a value", { got: nf.value });
      }
      // region
      for (const [over, want] of [[undefined, "eu-west-1"], ["eu-north-1", "eu-north-1"]]) {
        if (over) process.env.SECRET_OVERRIDE_AWS_REGION = over;
        else delete process.env.SECRET_OVERRIDE_AWS_REGION;
        const m = await lib("aws/runtime/secrets/secret.ts", { isolated: true });
        store.set("r", { a: "b" });
        fetches = [];
        const r = await ctx.attempt(() => m.getSecret("r"));
        ctx.case({ region: want });
        ctx.expect(r.ok && fetches[0]?.region === want, "region", "the secret was read from the wrong region", { over, region: fetches[0]?.region, r });
      }
      delete process.env.SECRET_OVERRIDE_AWS_REGION;
    } finally {
      clock.uninstall();
      await aws.stop();
    }
  },
};

import { repo } from "../harness/hooks.mjs";
import { cdk, cdkMod, synth, inScratch, newApp } from "../harness/infra.mjs";
import { target, text } from "../harness/cfn.mjs";
import { bundleHandlers, Edge } from "../harness/edge.mjs";
import { Waf } from "../harness/waf.mjs";

const { LambdaEdgeEventType } = cdkMod("aws-cloudfront");
const HOSTS = ["api1.example.com", "api2.example.com", "lb.example.com"];
const BUCKETS = ["b-one", "b-two", "b-three.s3.eu-north-1.amazonaws.com"];
const IPLISTS = ["1.2.3.4", "1.2.3.4,5.6.7.8", "9.9.9.9,8.8.8.8,7.7.7.7", "11.2.3.45,9.9.9.90"];
// among them addresses that only begin, end or lie inside a listed one
const CLIENTS = ["1.2.3.4", "5.6.7.8", "9.9.9.9", "7.7.7.7", "11.2.3.4", "11.2.3.45", "1.2.3.45", "5.6.7.80"];
const CORS = "access-control-allow-origin";

export default {
  id: "P20",
  rule: "A case is one random set of distributions (behaviours over shared origins with their own keys, timeouts, handlers, caching, limits), synthesized with the real handlers bundled in; a simulated CloudFront then plays requests against the template; non-trivial when at least one request was judged.",
  assumptions: ["CloudFront picks the first behaviour whose pattern matches, runs at most one function or lambda per event, and adds the origin's custom headers to origin requests; the handlers are bundled by esbuild instead of rollup."],
  async run(ctx) {
    ctx.require("requests", 1500);
    ctx.require("origin-requests", 700);
    ctx.require("keyed-origin-requests", 150);
    ctx.require("shared-origins", 30);
    ctx.require("ip-decisions", 60);
    ctx.require("cache-policies", 200);
    ctx.require("limits", 15);
    ctx.require("refused", 40);
    await inScratch(async (dir) => {
      await bundleHandlers(dir);
      for (let i = 0; i < ctx.n(70, 600); i++) await one(ctx, ctx.rng);
      await refusals(ctx, ctx.rng);
    });
  },
};

let serial = 0;
/** a random behaviour: [real behaviour, what it must do] */
function behavior(rng, B, path, isDefault, vpcs) {
  const e = { path, slots: {}, ttl: 60, keys: [], cacheHeaders: [], timeout: 30, originPath: "", methods: "gho" };
  const key = () => (e.key = "key-" + rng.word(4, 8));
  let b;
  const kinds = ["api", "apiKey", "plain", "plainKey", "nginx", "nginxPlain", "s3", "swagger"];
  if (vpcs.length) kinds.push("vpc", "vpc");
  if (isDefault) kinds.push("redirect");
  const kind = (e.kind = rng.pick(kinds));
  const host = rng.pick(HOSTS);
  const origin = (type, h) => Object.assign(e, { type, host: h, originPath: type === "api" ? "/prod" : "" });
  const both = () => { e.slots.vreq = "gzip"; e.slots.vres = "cors"; };
  switch (kind) {
    case "api": origin("api", host); b = B.apiGateway(path, host); both(); break;
    case "apiKey": origin("api", host); b = B.apiGateway(path, { endpointUrl: host, apiKey: key() }); both(); break;
    case "plain": origin("api", host); b = B.apiGatewayPlain(path, host); e.methods = "all"; break;
    case "plainKey": origin("api", host); b = B.apiGatewayPlain(path, { endpointUrl: host, apiKey: key() }); e.methods = "all"; break;
    case "nginx": origin("http", host); b = B.nginx(path, host); both(); break;
    case "nginxPlain": origin("http", host); b = B.nginxPlain(path, host); break;
    case "vpc": origin("vpc", rng.pick(vpcs)); b = B.vpcLb(path, e.host); both(); break;
    case "s3": origin("s3", rng.pick(BUCKETS)); b = B.s3(path, e.host); break;
    case "swagger": origin("s3", rng.pick(BUCKETS)); b = B.swagger(path, e.host); e.slots.vreq = "index"; break;
    case "redirect": origin("https", "www.digitraffic.fi"); b = B.redirect((e.redirect = "https://there.example/")); e.slots.vreq = "redirect"; break;
  }
  const mods = [
    () => { b.withCacheTtl((e.ttl = rng.pick([30, 60, 120, 600]))); },
    () => { const k = rng.subset(["a", "b", "lang", "Accept"], 0.5); e.keys.push(...k); b.withQueryCacheKeys(...k); },
    () => { const h = rng.subset(["x-api-key", "Accept", "lang"], 0.6).filter((x) => !e.cacheHeaders.includes(x)); e.cacheHeaders.push(...h); b.withCacheHeaders(...h); },
    () => { b.withReadTimeout((e.timeout = rng.int(5, 60))); },
    () => { b.withAllowAllMethods(); e.methods = "all"; },
    () => { if (e.type !== "s3") { b.withApiKey("extra-" + rng.word(3, 6)); e.key = b.apiKey; } },
    () => { b.withoutApiKey(); e.key = undefined; },
    () => { if (e.slots.vreq === "gzip") { b.withoutGzipRequirementLambda(); delete e.slots.vreq; } },
    () => { if (!e.slots.vreq && !e.oips) { e.ips = rng.pick(IPLISTS); b.withIpRestrictionLambda(`r${++serial}`, e.ips); e.slots.vreq = "ip"; } },
    () => { if (!e.slots.oreq && !e.ips) { e.oips = rng.pick(IPLISTS); b.withIpRestrictionLambda(`r${++serial}`, e.oips, LambdaEdgeEventType.ORIGIN_REQUEST); e.slots.oreq = "ip"; } },
    () => { if (!e.slots.vreq) { b.withRemovePathFunction((e.remove = rng.int(1, 3))); e.slots.vreq = "remove"; } },
    () => { if (!e.slots.vreq) { b.withIndexHtmlFunction(); e.slots.vreq = "index"; } },
    () => { if (!e.slots.vreq) { b.withGzipRequirementLambda(); e.slots.vreq = "gzip"; } },
    () => { if (!e.slots.vres) { if (rng.bool()) b.withHttpHeadersFunction(); else b.withHttpHeadersLambda(); e.slots.vres = "cors"; e.fn = true; } },
    () => { if (e.slots.vres && !e.fn) { b.removeViewerResponseLambda(); delete e.slots.vres; } },
  ];
  // one list, split between headers and parameters at different places
  if (rng.bool(0.35)) {
    const list = rng.pick([["lang"], ["a", "lang"], ["lang", "b"]]);
    const at = rng.int(0, list.length);
    if (at) { e.cacheHeaders.push(...list.slice(0, at)); b.withCacheHeaders(...list.slice(0, at)); }
    if (at < list.length) { e.keys.push(...list.slice(at)); b.withQueryCacheKeys(...list.slice(at)); }
    if (rng.bool(0.2)) b.withCacheTtl((e.ttl = 120));
    mods.splice(0, 3);
  }
  for (const m of rng.shuffle(mods)) if (rng.bool(0.3)) m();
  return [b, e];
}

async function one(ctx, rng) {
  const { CloudfrontCdkStack } = await repo("other/cloudfront/src/cloudfront-cdk-stack.ts", { isolated: true });
  const { Behavior } = await repo("other/cloudfront/src/distribution/behavior.ts");
  const { WafRules } = await repo("other/cloudfront/src/acl/waf-rules.ts");
  const app = newApp();
  const stack = new CloudfrontCdkStack(app, "Cf", { env: { region: "us-east-1", account: "123456789012" } });
  const limits = () => Array.from({ length: 2 }, () => rng.int(50, 70)).concat(rng.maybe(() => rng.int(50, 70)), rng.maybe(() => rng.int(50, 70)));
  const DEFLOG = "arn:aws:kinesis:us-east-1:1:default";
  if (rng.bool(0.6)) stack.withLogConfig(DEFLOG);
  const hasDefLog = !!stack._defaults?.logConfigArn;
  const defLimits = rng.maybe(limits, 0.6);
  if (defLimits) stack.withAclRule(WafRules.per5min(...defLimits));
  const dists = [];
  const buckets = new Set();
  for (let d = 0; d < rng.int(1, 2); d++) {
    const vpcs = rng.subset([`lb-a${d}`, `lb-b${d}`], 0.4);
    const paths = rng.subset(["api/one/*", "api/two*", "/abs/*", "history/*", "*.jpg", "ui/*"], 0.6);
    const list = [["*", true], ...paths.map((p) => [p, false])].map(([p, def]) => behavior(rng, Behavior, p, def, vpcs));
    // a bucket can be used by one distribution of a stack only
    for (const x of list) if (x[1].type === "s3" && buckets.has(x[1].host)) { x[0] = Behavior.nginxPlain(x[1].path, "plain.example.com"); x[1] = { path: x[1].path, slots: {}, ttl: 60, keys: [], cacheHeaders: [], timeout: 30, originPath: "", methods: "gho", type: "http", host: "plain.example.com" }; }
    for (const [, e] of list) if (e.type === "s3") e.mark = e.host;
    dists.push({ d, vpcs, list: rng.bool(0.7) ? list : rng.shuffle(list), alias: `www${d}.example.com`, own: rng.maybe(limits, 0.4) ?? (defLimits ? undefined : limits()), log: hasDefLog && rng.bool(0.6) ? undefined : `arn:aws:kinesis:us-east-1:1:own${d}`, root: rng.maybe(() => "start.html", 0.4) });
    for (const [, e] of list) if (e.type === "s3") buckets.add(e.host);
  }
  const w0 = () => dists.map((d) => d.list.map(([, e]) => e));
  const built = ctx.attemptSync(() => {
    for (const x of dists)
      stack.withDistribution(`Dist${x.d}`, `arn:aws:acm:us-east-1:123456789012:certificate/c${x.d}`, (db) => {
        for (const v of x.vpcs) db.withVpcOrigin(v, `arn:vpc:${v}`);
        db.withAliasName(x.alias);
        if (x.own) db.withAclRule(WafRules.per5min(...x.own));
        if (x.log) db.withLogConfig(x.log);
        if (x.root) db.withDefaultRootObject(x.root);
        for (const [b] of x.list) db.withBehaviors(b);
      });
    return synth(app, stack);
  });
  ctx.case(w0(), true);
  if (!ctx.expect(built.ok, "refused-valid", "a valid configuration was refused", () => ({ error: String(built.error?.stack ?? built.error).slice(0, 900), w: w0() }))) return;
  const cfn = built.value;
  for (const x of dists) {
    const dist = cfn.find("AWS::CloudFront::Distribution", (p) => p.DistributionConfig.Aliases?.includes(x.alias));
    if (!ctx.expect(dist, "missing", "a distribution is missing")) continue;
    await judge(ctx, rng, cfn, dist[1].Properties, x, defLimits);
  }
}

async function judge(ctx, rng, cfn, props, x, defLimits) {
  const c = props.DistributionConfig;
  const edge = new Edge(cfn, props);
  ctx.equal([c.HttpVersion, c.DefaultRootObject, text(c.ViewerCertificate?.AcmCertificateArn)], ["http2and3", x.root ?? "index.html", `arn:aws:acm:us-east-1:123456789012:certificate/c${x.d}`], "distribution", "distribution settings differ");
  ctx.equal((props.Tags ?? []).find((t) => t.Key === "EnableShieldAdvanced")?.Value, "true", "shield", "the distribution is not marked for protection");
  // request limits
  const acl = cfn.byId(target(c.WebACLId));
  if (ctx.expect(acl, "no-acl", "the distribution has no access control list")) limitsOf(ctx, rng, cfn, acl.Properties, x.own ?? defLimits);
  const byHost = new Map();
  for (const [, e] of x.list) {
    if (byHost.has(e.host)) ctx.observe("shared-origins");
    byHost.set(e.host, true);
  }
  for (const [, e] of x.list) {
    const uri0 = e.path === "*" ? "/zzz/file" : ("/" + e.path.replace(/^\//, "")).replaceAll("*", "xx").replace("/xx.jpg", "/xx/yy.jpg");
    const b = edge.behavior(uri0);
    const w = (o = {}) => ({ e, ...o });
    if (!ctx.expect(e.path === "*" ? b === c.DefaultCacheBehavior : b.PathPattern === e.path, "pattern", "the behaviour for a path is missing", w)) continue;
    ctx.equal([b.ViewerProtocolPolicy, text(b.RealtimeLogConfigArn)], ["redirect-to-https", x.log ?? "arn:aws:kinesis:us-east-1:1:default"], "viewer", "viewer protocol or log destination differs", w);
    ctx.equal([...b.AllowedMethods].sort(), (e.methods === "all" ? ["DELETE", "GET", "HEAD", "OPTIONS", "PATCH", "POST", "PUT"] : ["GET", "HEAD", "OPTIONS"]), "methods", "allowed methods differ", w);
    // cache key and time
    const p = edge.cachePolicy(b);
    ctx.observe("cache-policies");
    if (ctx.expect(p, "no-cache-policy", "no cache policy", w)) {
      ctx.equal([p.MinTTL, p.DefaultTTL, p.MaxTTL], [0, e.ttl, e.ttl], "ttl", "cache time differs", w);
      const k = p.ParametersInCacheKeyAndForwardedToOrigin;
      ctx.equal([k.QueryStringsConfig.QueryStringBehavior, [...(k.QueryStringsConfig.QueryStrings ?? [])].sort()], e.keys.length ? ["whitelist", [...e.keys].sort()] : ["all", []], "cache-query", "query parameters in the cache key differ", w);
      ctx.equal([...(k.HeadersConfig.Headers ?? [])].sort(), [...e.cacheHeaders].sort(), "cache-headers", "headers in the cache key differ", w);
      ctx.equal([k.EnableAcceptEncodingGzip, k.EnableAcceptEncodingBrotli], [true, true], "cache-encoding", "compressed and plain answers share a cache entry", w);
    }
    // traffic
    for (let i = 0; i < 5; i++) {
      const dir = rng.bool(0.3);
      const uri = e.path.endsWith("*") ? uri0 + "/" + rng.array(rng.int(0, 3), () => rng.word(2, 5)).join("/") + (dir ? "/" : "") : uri0;
      if (edge.behavior(uri) !== b) continue;
      const r = { uri, method: rng.pick(["GET", "GET", "GET", "HEAD", "OPTIONS", "POST"]), qs: rng.maybe(() => "a=" + rng.word(1, 4)) ?? "", ip: rng.pick(CLIENTS), headers: rng.pick([{}, { "accept-encoding": "gzip" }, { "accept-encoding": "br,gzip" }, { "accept-encoding": "br" }]) };
      const originHeaders = { "content-type": [{ key: "Content-Type", value: "text/plain" }] };
      const got = await ctx.attempt(() => edge.request(r, () => ({ status: "200", statusDescription: "OK", headers: originHeaders })));
      ctx.observe("requests");
      const wr = () => ({ e, r, got: got.ok ? { status: got.value.answer.status, from: got.value.answer.from, uri: got.value.originReq?.uri, origin: got.value.originReq?.origin } : String(got.error?.stack) });
      if (!ctx.expect(got.ok, "handler-failed", "an edge handler failed on a request", wr)) continue;
      const { answer, originReq, origin } = got.value;
      const gz = /gzip/.test(r.headers["accept-encoding"] ?? "");
      let want = null;
      if (e.slots.vreq === "gzip" && r.method === "OPTIONS") want = "204";
      else if (e.slots.vreq === "gzip" && r.method === "GET" && !gz) want = "406";
      else if (e.slots.vreq === "redirect") want = "302";
      else {
        for (const l of [e.slots.vreq === "ip" && e.ips, e.slots.oreq === "ip" && e.oips].filter(Boolean)) {
          ctx.observe("ip-decisions");
          if (!l.split(",").includes(r.ip)) want = "403";
        }
      }
      if (want) {
        ctx.expect(answer.status === want && !originReq, "answered-" + want, "a request the edge must answer itself was not answered so", wr);
        if (want === "302") ctx.equal(answer.headers.location?.[0].value, e.redirect, "redirect", "redirect target differs", wr);
        continue;
      }
      if (!ctx.expect(originReq && answer.status === "200", "not-forwarded", "a request that must reach the origin did not", wr)) continue;
      ctx.observe("origin-requests");
      let uriWant = r.uri;
      if (e.slots.vreq === "index" && uriWant.endsWith("/")) uriWant += "index.html";
      if (e.slots.vreq === "remove") for (let n = e.remove; n > 0; n--) { const at = uriWant.indexOf("/", 1); if (at > 0) uriWant = uriWant.slice(at); }
      ctx.equal([originReq.uri, originReq.querystring], [uriWant, r.qs], "origin-uri", "the origin got another path or query", wr);
      // the right origin, with the right credentials
      const dom = text(origin.DomainName);
      const domWant = e.type === "s3" ? (e.host.includes(".") ? e.host : `${e.host}.s3.eu-west-1.amazonaws.com`) : e.host;
      if (e.type === "vpc") {
        const vo = cfn.byId(target(origin.VpcOriginConfig?.VpcOriginId))?.Properties.VpcOriginEndpointConfig;
        ctx.equal(text(vo?.Arn), `arn:vpc:${e.host}`, "origin-vpc", "requests go to another load balancer", wr);
      } else ctx.equal(dom, domWant, "origin-host", "requests go to another origin", wr);
      ctx.equal(origin.OriginPath ?? "", e.originPath, "origin-path", "the origin's path differs", wr);
      const keys = (origin.OriginCustomHeaders ?? []).filter((h) => h.HeaderName.toLowerCase() === "x-api-key").map((h) => text(h.HeaderValue));
      if (e.key) ctx.observe("keyed-origin-requests");
      ctx.equal(keys, e.key && e.type !== "s3" ? [e.key] : [], "origin-key", "the origin got another key than the behaviour's own", wr);
      if (e.type === "vpc") ctx.equal(origin.VpcOriginConfig?.OriginReadTimeout, e.timeout, "origin-timeout", "the timeout towards the load balancer differs", wr);
      if (e.type !== "s3" && e.type !== "vpc") {
        const o = origin.CustomOriginConfig;
        ctx.equal([o.OriginProtocolPolicy, o.OriginReadTimeout], [e.type === "http" ? "http-only" : "https-only", e.timeout], "origin-protocol", "protocol or timeout towards the origin differs", wr);
      }
      if (e.type === "s3") ctx.expect(!!origin.S3OriginConfig && !!origin.OriginAccessControlId, "origin-s3", "the bucket is not accessed with access control", wr);
      if (e.slots.vres === "cors" && r.method === "GET") ctx.equal(answer.headers[CORS]?.[0]?.value, "*", "cors", "a CORS header is missing", wr);
    }
  }
}

function limitsOf(ctx, rng, cfn, acl, [user, anon, userPath, anonPath]) {
  for (const [who, lim, pathLim] of [["user", user, userPath], ["", anon, anonPath]]) {
    const waf = new Waf(cfn, acl);
    const samePath = rng.bool();
    let n = 0;
    while (n < 200 && !waf.request({ ip: "1.1.1.1", user: who || undefined, path: samePath ? "/a" : "/p" + n, query: "", headers: {} }).blocked) n++;
    ctx.observe("limits");
    ctx.equal(n, Math.min(lim, samePath ? (pathLim ?? 999) : 999), "limit", "the number of requests a client may make differs", { who, lim, pathLim, samePath });
    ctx.expect(!waf.request({ ip: "2.2.2.2", user: who || undefined, path: "/a", query: "", headers: {} }).blocked, "limit-others", "one client's requests block another");
  }
}

async function refusals(ctx, rng) {
  const { WafRules } = await repo("other/cloudfront/src/acl/waf-rules.ts");
  const { Behavior } = await repo("other/cloudfront/src/distribution/behavior.ts");
  const no = (key, f, w) => {
    ctx.observe("refused");
    ctx.case({ refused: key, w });
    let threw = false;
    try { f(); } catch { threw = true; }
    ctx.expect(threw, "accepted-" + key, "an invalid configuration was accepted", w);
  };
  for (let i = 0; i < 60; i++) {
    // limits below the service's minimum
    const l = [60, 60, 60, 60, 60];
    const at = rng.int(0, 4);
    l[at] = rng.int(0, 49);
    no("limit", () => WafRules.per5min(l[0], l[1], l[2], l[3], { path: /x/, limit: l[4] }), { l });
    if (at < 4) no("limit-common", () => WafRules.per5minWithSelectedCommon([], l[0], l[1], l[2], l[3]), { l });
  }
  const slots = {
    vreq: [(b) => b.withGzipRequirementLambda(), (b) => b.withIpRestrictionLambda("p", "1.1.1.1"), (b) => b.withIndexHtmlFunction(), (b) => b.withRemovePathFunction(1), (b) => b.withRedirectFunction("https://x")],
    vres: [(b) => b.withHttpHeadersLambda(), (b) => b.withHttpHeadersFunction(), (b) => b.withLamLambdas("arn:x"), (b) => b.withWeathercamLambdas("h", "u")],
    oreq: [(b) => b.withLamLambdas("arn:x"), (b) => b.withWeathercamLambdas("h", "u"), (b) => b.withIpRestrictionLambda("p", "1.1.1.1", LambdaEdgeEventType.ORIGIN_REQUEST)],
  };
  for (const [s, l] of Object.entries(slots)) for (const [i, a] of l.entries()) for (const [j, b] of l.entries()) no("slot-" + s, () => b(a(Behavior.nginxPlain("*", "h")) ?? 0), { s, i, j });
  // taking away the compression requirement takes away nothing else
  for (const ev of [undefined, LambdaEdgeEventType.ORIGIN_REQUEST]) {
    const b = Behavior.nginxPlain("*", "h").withIpRestrictionLambda("p", "1.1.1.1", ev);
    const before = [...b.lambdaConfig.lambdas];
    b.withoutGzipRequirementLambda();
    ctx.case({ without: ev });
    ctx.equal([...b.lambdaConfig.lambdas], before, "restriction-lost", "removing the compression requirement removed the address restriction", { ev });
  }
  const build = async (fill) => {
    const { CloudfrontCdkStack } = await repo("other/cloudfront/src/cloudfront-cdk-stack.ts", { isolated: true });
    const app = newApp();
    const s = new CloudfrontCdkStack(app, "Cf", { env: { region: "us-east-1", account: "123456789012" } }).withLogConfig("arn:log").withAclRule(WafRules.per5min(50, 50));
    return () => { fill(s); return synth(app, s); };
  };
  for (const [k, fill] of Object.entries({
    "no-behaviors": (s) => s.withDistribution("D", "arn:aws:acm:us-east-1:123456789012:certificate/c", () => {}),
    "no-default": (s) => s.withDistribution("D", "arn:aws:acm:us-east-1:123456789012:certificate/c", (d) => d.withBehaviors(Behavior.nginx("a/*", "h"))),
    "two-defaults": (s) => s.withDistribution("D", "arn:aws:acm:us-east-1:123456789012:certificate/c", (d) => d.withBehaviors(Behavior.nginx("*", "h"), Behavior.nginx("*", "h"))),
    "no-vpc": (s) => s.withDistribution("D", "arn:aws:acm:us-east-1:123456789012:certificate/c", (d) => d.withBehaviors(Behavior.vpcLb("*", "nope"))),
  })) no(k, await build(fill), {});
  // handlers with parameters are never shared between behaviours that differ in them
  for (let i = 0; i < ctx.n(10, 60); i++) {
    const lists = [rng.pick(IPLISTS), rng.pick(IPLISTS)];
    const names = [rng.pick(["p", "q"]), rng.pick(["p", "q"])];
    const f = await build((s) => s.withDistribution("D", "arn:aws:acm:us-east-1:123456789012:certificate/c", (d) => d.withAliasName("a.b").withBehaviors(Behavior.nginxPlain("*", "h").withIpRestrictionLambda(names[0], lists[0]), Behavior.nginxPlain("x/*", "h").withIpRestrictionLambda(names[1], lists[1]))));
    const got = ctx.attemptSync(f);
    ctx.case({ lists, names });
    if (got.ok) {
      const edge = new Edge(got.value, got.value.of("AWS::CloudFront::Distribution")[0][1].Properties);
      for (const [k, uri] of [[0, "/y"], [1, "/x/1"]])
        for (const ip of CLIENTS) {
          const r = await edge.request({ uri, ip }, () => ({ status: "200", headers: {} }));
          ctx.observe("ip-decisions");
          ctx.equal(r.answer.status, lists[k].split(",").includes(ip) ? "200" : "403", "ip-shared", "a client was judged by another behaviour's address list", { lists, names, k, ip });
        }
    } else ctx.expect(names[0] === names[1] && lists[0] !== lists[1], "ip-refused", "restrictions that do not collide were refused", { lists, names, error: String(got.error) });
    const cams = [rng.pick(["h1", "h2"]), rng.pick(["h1", "h2"])];
    const g = ctx.attemptSync(await build((s) => s.withDistribution("D", "arn:aws:acm:us-east-1:123456789012:certificate/c", (d) => d.withAliasName("a.b").withBehaviors(Behavior.s3("*", "bkt-cams").withWeathercamLambdas(cams[0], cams[0] + ".url"), Behavior.s3("x/*", "bkt-cams").withWeathercamLambdas(cams[1], cams[1] + ".url")))));
    if (g.ok) {
      const edge = new Edge(g.value, g.value.of("AWS::CloudFront::Distribution")[0][1].Properties);
      for (const [k, uri] of [[0, "/C1.jpg"], [1, "/x/C1.jpg"]]) {
        const r = await edge.request({ uri, qs: "versionId=1" }, () => ({ status: "200", headers: {} }));
        ctx.equal([r.originReq.origin.custom?.domainName, r.originReq.headers.host?.[0].value], [cams[k] + ".url", cams[k]], "weathercam-shared", "image versions are fetched from another behaviour's host", { cams, k });
      }
    } else ctx.expect(cams[0] !== cams[1], "weathercam-refused", "equal weathercam settings were refused", { cams, error: String(g.error) });
  }
}

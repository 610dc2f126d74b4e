import { lib } from "../harness/hooks.mjs";
import { newApp, synth, inScratch, cdk } from "../harness/infra.mjs";
import { Waf, inCidr } from "../harness/waf.mjs";

const { AclBuilder } = await lib("aws/infra/acl-builder.ts");
const GROUPS = ["CommonRuleSet", "AmazonIpReputationList", "KnownBadInputsRuleSet", "SQLiRuleSet"];
// method -> [blocks, needs header, per path]
const LIMITS = {
  withThrottleDigitrafficUserIp: [true, true, false],
  withThrottleDigitrafficUserIpAndUriPath: [true, true, true],
  withThrottleAnonymousUserIp: [true, false, false],
  withThrottleAnonymousUserIpAndUriPath: [true, false, true],
  withThrottleAnonymousUserIpByUriPath: [true, false, false],
  withCountDigitrafficUserIp: [false, true, false],
  withCountDigitrafficUserIpAndUriPath: [false, true, true],
  withCountAnonymousUserIp: [false, false, false],
  withCountAnonymousUserIpAndUriPath: [false, false, true],
};
const PATHS = ["/api/a", "/api/b", "/api/beta/c", "/API/a", "/road/x/1", "/road/x/2"];
const REGEXES = [/\/api\/beta/, /^\/road\/.*$/, /\/x\/\d+$/];

export default {
  id: "P12",
  rule: "A case is one access-control list built by a random sequence of builder calls, synthesized, and evaluated on a random stream of requests of one rate window against an independent model of the limits asked for; non-trivial when at least one request was judged.",
  assumptions: ["Rules are evaluated as the service documents (priority order, counting rules do not terminate, a missing header does not match; a rate counter counts every request in its scope); AWS managed rule groups are opaque."],
  async run(ctx) {
    ctx.require("acls", 100);
    ctx.require("requests", 10000);
    ctx.require("blocked", 500);
    ctx.require("refused-builds", 5);
    ctx.require("empty-header", 500);
    await inScratch(async () => {
      for (let i = 0; i < ctx.n(220, 2000); i++) one(ctx, ctx.rng);
    });
  },
};

function one(ctx, rng) {
  const app = newApp();
  const stack = new cdk.Stack(app, "S", { env: { region: "us-east-1", account: "123456789012" } });
  const name = rng.pick(["WebACL", "Acl-" + rng.word(2, 6)]);
  const b = new AclBuilder(stack, name);
  const calls = [];
  const model = { limits: [], black: undefined, white: undefined, query: undefined, managed: new Map(), bodies: new Map() };
  const fns = rng.shuffle([
    ...Object.keys(LIMITS).filter(() => rng.bool(0.4)),
    ...["black", "white", "query", "managed", "body"].filter(() => rng.bool(0.35)),
    ...(rng.bool(0.06) ? ["dup"] : []),
  ]);
  let dup = false;
  const addr = () => rng.pick(["10.0.0.1", "10.0.0.0/24", "10.0.1.0/25", "192.168.1.7/32", "10.0.2.3"]);
  for (const f of fns) {
    if (f === "black") { model.black = rng.array(rng.int(1, 3), addr); b.withIpBlacklistRule([...model.black]); }
    else if (f === "white") { model.white = rng.array(rng.int(1, 4), addr); b.withIpWhitelistRule([...model.white]); }
    else if (f === "query") { model.query = rng.pick([0, 5, 20, 100]); b.withQueryStringSizeRestriction(model.query); }
    else if (f === "managed") {
      const which = rng.pick(["all", undefined, rng.subset(GROUPS)]);
      const excluded = rng.maybe(() => ({ [rng.pick(GROUPS)]: rng.array(rng.int(1, 3), () => rng.word(3, 6)) }));
      b.withAWSManagedRules(which, excluded);
      for (const g of which === undefined || which === "all" ? GROUPS : which) model.managed.set(g, excluded?.[g] ?? []);
    } else if (f === "body") {
      const k = rng.pick(["K1", "K2"]);
      const c = { content: rng.word(3, 9), contentType: "TEXT_PLAIN" };
      model.bodies.set(k, c.content);
      b.withCustomResponseBody(k, c);
    } else if (f === "dup") {
      const l = rng.int(1, 9);
      const m = rng.pick(Object.keys(LIMITS));
      b[m](l, /x/); b[m](l, /x/);
      dup = true;
    } else {
      const limit = rng.pick([undefined, rng.int(1, 12), rng.int(1, 12), rng.int(1, 12)]);
      const path = f.endsWith("ByUriPath") ? rng.pick([undefined, ...REGEXES]) : undefined;
      const r = f.endsWith("ByUriPath") ? b[f](limit, path) : b[f](limit);
      ctx.expect(r === b, "fluent", "a builder call does not return the builder");
      const [block, header, perPath] = LIMITS[f];
      if (limit !== undefined && (!f.endsWith("ByUriPath") || path)) model.limits.push({ f, limit, block, header, perPath, path, n: new Map() });
    }
    calls.push(f);
  }
  const empty = !model.limits.length && !model.black && !model.white && model.query === undefined && !model.managed.size;
  const r = ctx.attemptSync(() => b.build());
  if (empty || dup) {
    ctx.observe("refused-builds");
    ctx.expect(!r.ok, empty ? "empty-acl" : "duplicate-acl", "an access-control list without rules or with duplicate rules was accepted", () => ({ calls }));
    return;
  }
  if (!ctx.expect(r.ok, "build", "a valid access-control list was refused", () => ({ calls, error: r.error?.message }))) return;
  const cfn = synth(app, stack);
  const acl = cfn.props("AWS::WAFv2::WebACL")[0];
  const w0 = () => ({ calls, limits: model.limits.map(({ n, ...x }) => ({ ...x, path: String(x.path) })), acl });
  ctx.observe("acls");
  // structure
  const pr = acl.Rules.map((x) => x.Priority);
  ctx.expect(new Set(pr).size === pr.length, "priorities", "two rules share a priority", w0);
  ctx.expect(new Set(acl.Rules.map((x) => x.Name)).size === pr.length, "names", "two rules share a name", w0);
  ctx.expect(acl.Rules.every((x) => (x.Action ? 1 : 0) + (x.OverrideAction ? 1 : 0) === 1), "action", "a rule has no action or two", w0);
  ctx.expect(!!acl.DefaultAction?.Allow, "default", "requests that match no rule are not allowed", w0);
  ctx.expect(acl.Rules.every((x) => x.VisibilityConfig?.CloudWatchMetricsEnabled === true), "metrics", "a rule is not observable", w0);
  for (const s of cfn.props("AWS::WAFv2::IPSet")) ctx.expect(s.Scope === acl.Scope && s.IPAddressVersion === "IPV4", "ip-scope", "an address set has another scope than its list", w0);
  for (const x of acl.Rules) {
    const key = x.Action?.Block?.CustomResponse?.CustomResponseBodyKey;
    if (key) ctx.expect(!!acl.CustomResponseBodies?.[key], "body-key", "a rule refers to a response body that does not exist", w0);
  }
  for (const [k, c] of model.bodies) ctx.expect(acl.CustomResponseBodies?.[k]?.Content === c, "custom-body", "a custom response body was lost", w0);
  const managed = new Map(acl.Rules.filter((x) => x.Statement.ManagedRuleGroupStatement).map((x) => [x.Statement.ManagedRuleGroupStatement.Name.replace("AWSManagedRules", ""), x]));
  ctx.equal([...managed.keys()].sort(), [...model.managed.keys()].sort(), "managed", "the managed rule groups are not the ones asked for", w0);
  for (const [g, ex] of model.managed) {
    const m = managed.get(g);
    if (!m) continue;
    const names = (m.Statement.ManagedRuleGroupStatement.ExcludedRules ?? []).map((e) => e.Name);
    const base = g === "CommonRuleSet" ? ["NoUserAgent_HEADER", "SizeRestrictions_BODY", "GenericRFI_BODY"] : [];
    ctx.equal([...names].sort(), [...base, ...ex].sort(), "managed-excluded", "excluded rules of a managed group do not match", w0);
    ctx.expect(m.OverrideAction?.None !== undefined && m.Statement.ManagedRuleGroupStatement.VendorName === "AWS", "managed-override", "a managed group does not block", w0);
  }
  // behaviour
  const waf = new Waf(cfn, acl);
  const ips = ["10.0.0.1", "10.0.0.9", "10.0.1.5", "192.168.1.7", "10.0.2.3"].slice(0, rng.int(1, 5));
  const paths = rng.shuffle([...PATHS]).slice(0, rng.int(1, 3));
  const stream = [];
  for (let k = 0; k < ctx.n(90, 150); k++) {
    const q = { ip: rng.pick(ips), path: rng.pick(paths), user: rng.pick([undefined, undefined, "", "app/1", "x"]), query: rng.pick(["", "a=1", "a=1&b=22", "q".repeat(rng.int(0, 120))]) };
    stream.push(q);
    if (q.user === "") ctx.observe("empty-header");
    const got = waf.request(q);
    ctx.observe("requests");
    // model
    const hits = [];
    const countRules = [];
    if (model.black?.some((c) => inCidr(q.ip, c))) hits.push({ status: 403 });
    if (model.white && !model.white.some((c) => inCidr(q.ip, c))) hits.push({ status: 403 });
    if (model.query !== undefined && Buffer.byteLength(q.query) > model.query) hits.push({ status: 403 });
    const over = [];
    for (const l of model.limits) {
      if (!!q.user !== l.header) continue;
      if (l.path && !l.path.test(q.path)) continue;
      const key = q.ip + (l.perPath ? "|" + q.path.toLowerCase() : "");
      over.push({ l, key, n: (l.n.get(key) ?? 0) + 1 });
    }
    for (const o of over) if (o.l.block && o.n > o.l.limit) hits.push({ status: 429, limit: o.l.limit });
    for (const o of over) if (!o.l.block && o.n > o.l.limit) countRules.push(o.l.f);
    const w = () => ({ ...w0(), request: q, index: k, got, expected: hits });
    if (!ctx.expect(got.blocked === hits.length > 0, got.blocked ? "blocked-wrongly" : "not-blocked", got.blocked ? "a request within every limit was blocked" : "a request over a limit or from a blocked address was let through", w)) return;
    if (got.blocked) {
      ctx.observe("blocked");
      ctx.expect(hits.some((h) => h.status === got.status && (h.limit === undefined || new RegExp(`\\b${h.limit}\\b`).test(got.body ?? ""))), "block-response", "a blocked request is not answered with the status and limit of a rule it broke", w);
    } else ctx.expect(got.counted.length === countRules.length, "counted", "counting rules did not count what they should", w);
    for (const o of over) o.l.n.set(o.key, o.n);
  }
  ctx.case([calls, model.limits.map((l) => [l.f, l.limit, String(l.path)]), stream.slice(0, 5)]);
}

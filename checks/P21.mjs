import { repo } from "../harness/hooks.mjs";
import { synth, inScratch, newApp } from "../harness/infra.mjs";
import { text, iamMatch, target } from "../harness/cfn.mjs";
import { bundleHandlers, Edge, loadLambda } from "../harness/edge.mjs";
import { FakeAws } from "../harness/fakeaws.mjs";

const CORS = "access-control-allow-origin";
const SM = "arn:aws:secretsmanager:eu-west-1:123456789012:secret:road-AbCdEf";
const hdr = (k, v) => [{ key: k, value: v }];

export default {
  id: "P21",
  rule: "A case is one request played by a simulated CloudFront through the deployed image or measurement-history handlers (with the origin's answer generated); non-trivial when a handler changed or answered the request or response.",
  assumptions: ["CloudFront keeps handler instances between requests, passes the rewritten request to the response handler, and does not run the viewer-response handler for error answers."],
  async run(ctx) {
    for (const [k, n] of Object.entries({ images: 300, placeholders: 60, "image-versions": 60, "last-modified": 60, "raw-ongoing": 25, "raw-history": 25, queries: 120, "queries-refused": 50, pages: 40, downloads: 80, "secret-faults": 5, malformed: 10 })) ctx.require(k, n);
    const aws = await new FakeAws().start();
    process.env.AWS_REGION = "us-east-1";
    process.env.AWS_ACCESS_KEY_ID = "x";
    process.env.AWS_SECRET_ACCESS_KEY = "y";
    try {
      await inScratch(async (dir) => {
        await bundleHandlers(dir);
        for (let i = 0; i < ctx.n(6, 40); i++) await stackRun(ctx, ctx.rng, aws, dir);
      });
    } finally {
      await aws.stop();
    }
  },
};

async function stackRun(ctx, rng, aws, dir) {
  const { CloudfrontCdkStack } = await repo("other/cloudfront/src/cloudfront-cdk-stack.ts", { isolated: true });
  const { Behavior } = await repo("other/cloudfront/src/distribution/behavior.ts");
  const { WafRules } = await repo("other/cloudfront/src/acl/waf-rules.ts");
  const cam = { host: `cam-${rng.word(2, 5)}.example.com`, url: `lb-${rng.word(2, 5)}.elb.example.com` };
  const app = newApp();
  const stack = new CloudfrontCdkStack(app, "Cf", { env: { region: "us-east-1", account: "123456789012" } }).withLogConfig("arn:log").withAclRule(WafRules.per5min(60, 60));
  const built = ctx.attemptSync(() => {
    stack.withDistribution("Cams", "arn:aws:acm:us-east-1:123456789012:certificate/c", (d) => d.withAliasName("cams.example.com").withBehaviors(Behavior.s3("*", "cam-bucket").withWeathercamLambdas(cam.host, cam.url)));
    stack.withDistribution("Lam", "arn:aws:acm:us-east-1:123456789012:certificate/c", (d) => d.withAliasName("tie.example.com").withBehaviors(Behavior.nginxPlain("*", "other.example.com"), Behavior.s3("ui/tms/history*", "web-bucket").withLamLambdas(SM), Behavior.s3("api/tms/v1/history*", "history-bucket").withLamLambdas(SM)));
    return synth(app, stack);
  });
  if (!ctx.expect(built.ok, "refused-valid", "a valid configuration was refused", () => ({ error: String(built.error?.stack).slice(0, 600) }))) return;
  const cfn = built.value;
  const edge = (alias) => new Edge(cfn, cfn.find("AWS::CloudFront::Distribution", (p) => p.DistributionConfig.Aliases?.includes(alias))[1].Properties);
  const cams = edge("cams.example.com");
  for (let i = 0; i < ctx.n(150, 400); i++) await image(ctx, rng, cams, cam);
  await lam(ctx, rng, edge("tie.example.com"), cfn, aws);
  // nothing to handle
  for (const [, f] of cfn.of("AWS::Lambda::Function").map((r) => [r[0], r[1] ?? r]).entries()) {
    const code = (f[1]?.Properties ?? f[0]?.Properties ?? f.Properties)?.Code?.ZipFile;
    if (typeof code !== "string" || !code.includes("handler")) continue;
    for (const ev of [{}, { Records: [] }]) {
      ctx.observe("malformed");
      const r = await ctx.attempt(() => loadLambda(code)(ev));
      ctx.expect(!r.ok, "malformed", "an event without a request was accepted", { ev });
    }
  }
}

const lower = (h) => Object.fromEntries(Object.entries(h).map(([k, v]) => [k.toLowerCase(), v.map((x) => x.value)]));

async function image(ctx, rng, edge, cam) {
  const uri = `/C${rng.digits(7)}.jpg`;
  const qs = rng.maybe(() => rng.pick(["versionId=", "v="]) + rng.word(3, 8), 0.4) ?? "";
  const method = rng.pick(["GET", "GET", "GET", "HEAD", "OPTIONS"]);
  const status = rng.pick(["200", "200", "200", "304", "403", "404", "404", "500", "503", "416", "206"]);
  const meta = rng.maybe(() => new Date(1.7e12 + rng.int(0, 1e9) * 100).toUTCString(), 0.6);
  const upload = new Date(1.7e12).toUTCString();
  const headers = { "content-length": hdr("Content-Length", "243"), "content-type": hdr("Content-Type", status >= "400" ? "application/xml" : "image/jpeg"), "last-modified": hdr(rng.pick(["Last-Modified", "last-modified"]), upload), etag: hdr("ETag", '"' + rng.word(3, 6) + '"') };
  if (rng.bool()) headers["transfer-encoding"] = hdr("Transfer-Encoding", "chunked");
  if (rng.bool(0.4)) headers["cache-control"] = hdr("Cache-Control", "max-age=60");
  if (meta) headers["x-amz-meta-last-modified"] = hdr("x-amz-meta-last-modified", meta);
  const before = lower(headers);
  const r = { uri, qs, method };
  const got = await ctx.attempt(() => edge.request(r, () => ({ status, statusDescription: "S" + status, headers })));
  ctx.case({ r, status, meta });
  ctx.observe("images");
  const w = () => ({ r, status, meta, got: got.ok ? { ...got.value.answer, body: String(got.value.answer.body).slice(0, 20), req: got.value.originReq } : String(got.error?.stack) });
  if (!ctx.expect(got.ok && got.value.originReq, "image-failed", "a request for an image failed at the edge", w)) return;
  const { answer, originReq } = got.value;
  ctx.equal([originReq.uri, originReq.querystring, originReq.method], [uri, qs, method], "image-request", "the request for an image was changed", w);
  if (qs) {
    ctx.observe("image-versions");
    const c = originReq.origin?.custom;
    ctx.equal([c?.domainName, c?.protocol, c?.port, c?.path, originReq.origin?.s3, originReq.headers.host?.[0]?.value], [cam.url, "http", 80, "", undefined, cam.host], "image-version", "a request for an older image did not go to the image service", w);
  } else ctx.expect(originReq.origin?.s3?.domainName.startsWith("cam-bucket.") && !originReq.origin.custom && !originReq.headers.host, "image-origin", "a request for the current image did not go to the bucket", w);
  const after = lower(answer.headers);
  const missing = status === "403" || status === "404";
  if (missing) {
    ctx.observe("placeholders");
    const body = Buffer.from(answer.body ?? "", answer.bodyEncoding === "base64" ? "base64" : "utf8");
    ctx.equal([answer.status, after["content-type"], after["cache-control"]], ["200", ["image/jpeg"], ["no-cache"]], "placeholder", "a missing image is not answered with an uncached placeholder", w);
    ctx.expect(body.length > 1000 && body[0] === 0xff && body[1] === 0xd8 && body.at(-2) === 0xff && body.at(-1) === 0xd9, "placeholder-image", "the placeholder is not an image", w);
    for (const h of ["content-length", "transfer-encoding"]) ctx.equal(after[h], before[h], "read-only-headers", "a read-only header was changed", w);
  } else {
    ctx.equal([answer.status, answer.body], [status, undefined], "image-answer", "the origin's answer was replaced", w);
    const want = { ...before };
    if (method === "GET" && meta) {
      ctx.observe("last-modified");
      want["last-modified"] = [meta];
    }
    for (const k of Object.keys(want)) ctx.equal(after[k], want[k], "image-header", "a header of the image is wrong: " + k, w);
  }
  // an error answer does not pass the viewer-response handler
  if (method === "GET" && (missing || Number(status) < 400)) ctx.equal(after[CORS], ["*"], "cors", "a CORS header is missing", w);
}

async function lam(ctx, rng, edge, cfn, aws) {
  const secret = { snowflakeApikey: "flake-" + rng.word(6, 9), s3DomainTmsRawOngoing: `ongoing-${rng.word(2, 4)}.s3.amazonaws.com`, s3DomainTmsRawHistory: "hist.s3.amazonaws.com", snowflakeDomain: `flake-${rng.word(2, 4)}.example.com` };
  const full = { ...Object.fromEntries(Object.entries(secret).map(([k, v]) => ["tms-history." + k, v])), "other.snowflakeApikey": "wrong", snowflakeApikey: "wrong", "tms-history2.snowflakeDomain": "wrong.example.com" };
  let down = rng.int(1, 2);
  aws.requests.length = 0;
  aws.handle = async () => (down-- > 0 ? { status: 500, body: JSON.stringify({ __type: "InternalServiceError" }) } : { body: JSON.stringify({ ARN: SM, Name: "road", SecretString: JSON.stringify(full) }) });
  // the handler may read its secret
  const roles = cfn.of("AWS::IAM::Policy").map((p) => p[1].Properties);
  ctx.expect(roles.some((p) => p.PolicyDocument.Statement.some((s) => s.Effect === "Allow" && [s.Action].flat().some((a) => iamMatch(a, "secretsmanager:GetSecretValue")) && [s.Resource].flat().some((x) => iamMatch(text(x), SM)))), "secret-grant", "the handler may not read its secret");
  while (down > 0) {
    const before = down;
    const r = await ctx.attempt(() => edge.request({ uri: "/api/tms/v1/history", qs: "api=a&tyyppi=h&piste=1&pvm=2" }, () => ({ status: "200", headers: {} })));
    ctx.observe("secret-faults");
    ctx.expect(!r.ok, "without-secret", "a request went to the origin without the secret", () => ({ req: r.value?.originReq, a: r.value?.answer }));
    if (down === before) break;
  }
  const reqs = rng.array(ctx.n(110, 300), () => lamRequest(rng));
  const play = async ({ kind, r, want }) => {
    const headers = { "content-type": hdr("Content-Type", "binary/octet-stream"), "x-keep": hdr("X-Keep", "1") };
    const flake = kind === "query";
    const remapped = flake && rng.bool(0.8);
    if (flake) headers["x-api-key"] = hdr("x-api-key", secret.snowflakeApikey);
    if (remapped) headers["x-amzn-remapped-host"] = hdr("x-amzn-Remapped-host", secret.snowflakeDomain);
    if (flake && rng.bool()) headers["x-amzn-remapped-x-forwarded-for"] = hdr("x-amzn-Remapped-x-forwarded-for", "10.1.2.3");
    const got = await ctx.attempt(() => edge.request(r, () => ({ status: "200", statusDescription: "OK", headers })));
    ctx.case({ kind, r, remapped }, kind !== "other");
    const w = () => ({ kind, r, want, got: got.ok ? { req: got.value.originReq, answer: got.value.answer } : String(got.error?.stack).slice(0, 500) });
    if (kind === "bad-query") {
      ctx.observe("queries-refused");
      ctx.expect(!got.ok || (!got.value.originReq && Number(got.value.answer.status) >= 400), "bad-query", "an incomplete or contradictory query was sent to the data service", w);
      return;
    }
    if (!ctx.expect(got.ok, "lam-failed", "a request failed at the edge", w)) return;
    const { originReq, answer } = got.value;
    const shown = JSON.stringify([answer.status, answer.headers, answer.body]);
    ctx.expect(!shown.includes(secret.snowflakeApikey) && !shown.includes("10.1.2.3") && !answer.headers["x-api-key"], "key-leak", "the viewer is shown the key or an internal address", w);
    if (kind === "redirect") {
      ctx.observe("pages");
      ctx.equal([answer.status, answer.headers.location?.[0]?.value, !originReq], ["301", "/ui/tms/history/", true], "page-redirect", "the page's address is not redirected to its root", w);
      return;
    }
    if (!ctx.expect(originReq, "not-forwarded", "a request that must reach the origin did not", w)) return;
    const s3 = originReq.origin?.s3?.domainName;
    const keyed = JSON.stringify(originReq).includes(secret.snowflakeApikey);
    ctx.expect(keyed === flake, "key-elsewhere", "the key was sent elsewhere than to the data service, or not sent to it", w);
    if (kind === "query") {
      ctx.observe("queries");
      const c = originReq.origin?.custom;
      ctx.equal([c?.domainName, c?.protocol, c?.port, c?.path, originReq.headers.host?.[0]?.value, c?.customHeaders?.["x-api-key"]?.[0]?.value, s3], [secret.snowflakeDomain, "https", 443, "/prod", secret.snowflakeDomain, secret.snowflakeApikey, undefined], "query-origin", "a query did not go to the data service with its key", w);
      ctx.equal([originReq.uri, [...new URLSearchParams(originReq.querystring)].sort()], ["/" + want.api, Object.entries(want.q).sort()], "query-mapping", "the query sent is not the one asked", w);
      if (remapped) {
        ctx.observe("downloads");
        const q = want.q;
        ctx.equal([answer.headers["content-disposition"]?.[0]?.value, answer.headers["content-type"]?.[0]?.value], [`attachment; filename="${want.api}_${q.tyyppi}_${q.pvm ?? q.viikko}.csv"`, "text/csv; charset=utf-8"], "download", "the download's name or type is wrong", w);
      } else ctx.equal([answer.headers["content-disposition"], answer.headers["content-type"]?.[0]?.value], [undefined, "binary/octet-stream"], "not-download", "an answer that is not a download was made one", w);
      ctx.expect(!Object.keys(answer.headers).some((h) => h.startsWith("x-amzn-remapped")), "internal-headers", "internal headers reach the viewer", w);
    } else {
      ctx.observe(kind);
      ctx.equal([originReq.uri, s3?.split(".")[0], originReq.headers.host?.[0]?.value, originReq.querystring], [want.uri, want.bucket ?? secret.s3DomainTmsRawOngoing.split(".")[0], want.bucket ? undefined : secret.s3DomainTmsRawOngoing, r.qs ?? ""], kind, "a file was asked from the wrong place", w);
      ctx.equal(answer.headers["content-disposition"], undefined, "file-headers", "a file's headers were changed", w);
    }
    ctx.equal(answer.headers["x-keep"]?.[0]?.value, "1", "header-lost", "a header of the origin was lost", w);
    if (originReq.method === "GET") ctx.equal(answer.headers[CORS]?.[0]?.value, "*", "lam-cors", "a CORS header is missing", w);
  };
  // the first requests one by one, the rest in groups that run at the same time
  for (let i = 0; i < reqs.length; ) {
    const n = i < 10 ? 1 : rng.int(1, 8);
    await Promise.all(reqs.slice(i, i + n).map(play));
    i += n;
  }
  const asked = aws.requests.filter((r) => /GetSecretValue/.test(r.target ?? ""));
  ctx.expect(asked.length >= 1 && asked.every((r) => JSON.parse(r.body.toString()).SecretId === "road" && r.region === "eu-west-1"), "secret-asked", "the secret is not read from where it is", () => asked.map((r) => [r.body.toString(), r.region]));
}

function lamRequest(rng) {
  const method = rng.pick(["GET", "GET", "GET", "HEAD"]);
  const roll = rng.int(0, 9);
  if (roll <= 1) {
    const year = rng.int(0, 1) ? rng.int(22, 40) : rng.int(95, 121) % 100;
    const file = `lamraw_${rng.int(1, 1999)}_${String(year).padStart(2, "0")}_${rng.int(1, 366)}.csv`;
    const bad = rng.bool(0.15);
    const name = bad ? rng.pick(["readme.txt", "lamraw_22.csv", "lamraw_1_x_2.csv"]) : file;
    const on = !bad && year > 21;
    return { kind: on ? "raw-ongoing" : "raw-history", r: { uri: "/api/tms/v1/history/raw/" + name, method, qs: "" }, want: { uri: "/" + name, bucket: on ? undefined : "history-bucket" } };
  }
  if (roll === 2) return rng.bool() ? { kind: "redirect", r: { uri: rng.pick(["/ui/tms/history", "/ui/tms/history/index.html", "/ui/tms/history/index.htm"]), method } } : page(rng, method);
  if (roll === 3) return page(rng, method);
  const q = { api: rng.pick(["liikennemaara", "keskinopeus", "pistetiedot"]), tyyppi: rng.pick(["h", "vrk", "vk", "kk", "v"]) };
  const lists = [];
  const date = rng.pick(["pvm", "viikko", "both"]);
  if (date !== "viikko") q.pvm = "2023-03-" + rng.int(10, 28);
  if (date !== "pvm") q.viikko = "2023" + rng.int(10, 52);
  if (rng.bool(0.4)) q.loppu = "2023-04-" + rng.int(10, 28);
  const where = rng.pick(["piste", "pistejoukko", "both"]);
  if (where !== "pistejoukko") q.piste = rng.digits(3);
  if (where !== "piste") q.pistejoukko = rng.pick(["01", "U%26 ö", "a b"]);
  const out = { tyyppi: q.tyyppi };
  out[q.pvm ? "pvm" : "viikko"] = (q.pvm ?? q.viikko) + (q.loppu ? "-" + q.loppu : "");
  out[q.piste ? "piste" : "pistejoukko"] = q.piste ?? q.pistejoukko;
  const list = (name, outName, sep) => {
    const v = rng.array(rng.int(1, 3), () => rng.digits(1));
    for (const x of v) lists.push([name, x]);
    if (outName) out[outName] = v.join(sep);
  };
  if (rng.bool(0.4)) list("suunta", "suunta", "-");
  if (rng.bool(0.3)) out.sisallytakaistat = q.sisallytakaistat = rng.pick(["1", "true"]);
  const ryhma = rng.bool(0.3);
  if (ryhma) list("ryhma", "ryhma", ",");
  let bad = false;
  if (rng.bool(0.3)) {
    if (!ryhma && q.tyyppi !== "h") bad = true;
    list("luokka", ryhma ? undefined : "ajoneuvoluokka", ",");
  }
  const gone = rng.maybe(() => rng.pick([["api"], ["tyyppi"], ["piste", "pistejoukko"], ["pvm", "viikko"]]), 0.2);
  for (const k of gone ?? []) if (rng.bool()) delete q[k]; else q[k] = "";
  bad ||= !!gone;
  const pairs = rng.shuffle([...Object.entries(q), ...(rng.bool(0.3) ? [["extra", "1"]] : [])]).concat(lists);
  const qs = pairs.map(([k, v]) => `${k}=${encodeURIComponent(v)}`).join("&");
  return { kind: bad ? "bad-query" : "query", r: { uri: rng.pick(["/api/tms/v1/history", "/ui/tms/history", "/ui/tms/history/"]), qs, method }, want: { api: q.api, q: out } };
}
function page(rng, method) {
  const [uri, to] = rng.pick([["/ui/tms/history/", "/index.html"], ["/ui/tms/history/app.js", "/app.js"], ["/ui/tms/history/css/style.css", "/style.css"], ["/ui/tms/history/lam_stations.json", "/lam_stations.json"]]);
  return { kind: "pages", r: { uri, method, qs: "" }, want: { uri: to, bucket: "web-bucket" } };
}

import zlib from "node:zlib";
import { lib } from "../harness/hooks.mjs";
import { show } from "../harness/ctx.mjs";

const { LambdaProxyResponseBuilder } = await lib("aws/types/lambda-proxy-types.ts");
const { LambdaResponse, LambdaResponseBuilder } = await lib("aws/types/lambda-response.ts");
const LIMIT = 6 * 1024 * 1024;
const REDIRECTS = [301, 302, 303, 307, 308];
const TYPES = ["application/json", "text/plain", "text/csv", "application/xml", "image/svg+xml", "application/geo+json"];

/** What an HTTP client gets out of a proxy response. */
function receive(res) {
  let buf = Buffer.from(res.body, res.isBase64Encoded ? "base64" : "utf8");
  if (buf.length && header(res, "content-encoding") === "gzip") buf = zlib.gunzipSync(buf);
  return buf;
}
const header = (res, n) => Object.entries(res.headers ?? {}).find(([k]) => k.toLowerCase() === n)?.[1];
const same = (buf, s) => Buffer.compare(buf, Buffer.isBuffer(s) ? s : Buffer.from(s, "utf8")) === 0;

function bodyOf(rng, ctx) {
  const k = rng.int(0, 11);
  if (k === 0) return rng.json(3) ?? { a: null };
  if (k === 1) return rng.word(1, 12).repeat(rng.int(1, 2000));
  if (k === 2) return Array.from({ length: rng.int(1, 200) }, () => ({ id: rng.int(0, 1e6), name: rng.text(12) }));
  if (k === 3) return rng.text(2000).toWellFormed() || "x";
  if (k === 4) return rng.pick(["0", "false", "null", "{}", "[]", "a", "ä", "€", "😀", " ", "\n", '"', "\\", "\u0000", "\u2028"]);
  if (k === 5) return rng.array(rng.int(1, 50), () => rng.text(20)).join("").toWellFormed() || "y";
  return rng.text(200).toWellFormed() || "z";
}
const rawText = (b) => (typeof b === "string" ? b : JSON.stringify(b));

export default {
  id: "P01",
  rule: "A case is one random sequence of builder calls (body kinds, base64, compression, status, content type, file name, location, timestamp, repeated builds) or one static helper; non-trivial when it produced a response whose body was decoded as a client would and compared byte for byte.",
  assumptions: ["Bodies are well-formed UTF-16; timestamps are valid dates; a builder may refuse (throw) an empty body or base64 content combined with compression."],
  run(ctx) {
    ctx.require("responses.decoded", 1000);
    ctx.require("responses.gzip", 50);
    ctx.require("responses.oversize", 3);
    ctx.require("responses.base64", 50);
    const etags = new Map();
    const tags = new Map();
    const etagCheck = (kind, bodyKey, tag, w) => {
      ctx.expect(typeof tag === "string" && /^(W\/)?"[^"\r\n]*"$/.test(tag), "etag-malformed", "entity tag is not a quoted opaque tag", () => ({ tag: show(tag, 100), ...w }));
      const k = kind + bodyKey;
      if (etags.has(k)) ctx.expect(etags.get(k) === tag, "etag-unstable", "equal bodies got different entity tags", () => ({ a: etags.get(k), b: show(tag, 100), ...w }));
      else if (etags.size < 60000) etags.set(k, tag);
      const t = kind + tag;
      if (tags.has(t)) ctx.expect(tags.get(t) === bodyKey, "etag-collision", "different bodies share an entity tag", () => ({ tag: show(tag, 100), a: show(tags.get(t), 80), b: show(bodyKey, 80) }));
      else if (tags.size < 60000) tags.set(t, bodyKey);
    };

    // --- proxy responses: random builder call sequences against a model
    const N = ctx.n(6000, 60000);
    for (let i = 0; i < N; i++) {
      const rng = ctx.rng;
      const ops = [];
      const m = { status: 200, type: "application/json" };
      let b = LambdaProxyResponseBuilder.create();
      let refused = false;
      let steps = rng.int(1, 7);
      let haveBody = false;
      const doOp = (name, f) => {
        ops.push(name);
        try {
          const r = f();
          if (r) b = r;
          return true;
        } catch (e) {
          refused = e;
          return false;
        }
      };
      while (steps-- > 0 && !refused) {
        switch (rng.int(0, 9)) {
          case 0:
          case 1:
          case 2: {
            const body = bodyOf(rng, ctx);
            if (rng.bool(0.25)) {
              const bytes = rng.bool() ? Buffer.from(rawText(body)) : Buffer.from(rng.array(rng.int(1, 60), () => rng.int(0, 255)));
              const b64 = bytes.toString("base64");
              doOp(`withBody(b64 ${b64.length})`, () => b.withBody(b64, true)) && Object.assign(m, { bytes, b64: true });
            } else if (body === null || typeof body === "number" || typeof body === "boolean") {
              doOp(`withBody(${body})`, () => b.withBody({ v: body })) && Object.assign(m, { bytes: Buffer.from(JSON.stringify({ v: body })), b64: false });
            } else doOp(`withBody(${typeof body})`, () => b.withBody(body)) && Object.assign(m, { bytes: Buffer.from(rawText(body)), b64: false });
            haveBody = m.bytes?.length > 0;
            break;
          }
          case 3:
          case 4: {
            const on = rng.bool(0.8);
            const arg = on && rng.bool() ? [] : [on];
            if (doOp(`withCompression(${arg})`, () => b.withCompression(...arg))) m.compress = on;
            break;
          }
          case 5: {
            const s = rng.pick([200, 200, 201, 202, 204, 301, 302, 303, 307, 308, 400, 404, 410, 500, 501]);
            doOp(`withStatus(${s})`, () => b.withStatus(s)) && (m.status = s);
            break;
          }
          case 6: {
            const t = rng.pick(TYPES);
            doOp(`withContentType(${t})`, () => b.withContentType(t)) && (m.type = t);
            break;
          }
          case 7: {
            const f = rng.word() + rng.pick([".csv", ".json", ".xml"]);
            doOp(`withFileName(${f})`, () => b.withFileName(f)) && (m.file = f);
            break;
          }
          case 8: {
            const d = rng.date();
            const arg = rng.pick([d, d.toISOString(), undefined]);
            doOp(`withTimestamp(${arg})`, () => b.withTimestamp(arg)) && arg !== undefined && (m.ts = d);
            break;
          }
          default: {
            const l = "https://" + rng.word() + ".fi/" + rng.word();
            doOp(`withLocation(${l})`, () => b.withLocation(l)) && (m.loc = l);
          }
        }
      }
      if (rng.bool(0.1) && !refused) doOp("withDebug", () => b.withDebug());
      const w = () => ({ ops, model: { ...m, bytes: m.bytes ? show(m.bytes.toString("utf8"), 120) : undefined } });
      if (refused) {
        // Refusing is only allowed for base64 content combined with compression.
        const combo = m.b64 || m.compress;
        ctx.expect(combo, "builder-refused", "the builder refused a legal call", () => ({ ...w(), error: String(refused) }));
        ctx.case(ops, false);
        continue;
      }
      const builds = rng.bool(0.2) ? 2 : 1;
      for (let k = 0; k < builds; k++) {
        const r = ctx.attemptSync(() => b.build());
        if (!r.ok) {
          const noBodyOk = m.status === 204 || REDIRECTS.includes(m.status);
          ctx.expect((!haveBody && !noBodyOk) || (m.b64 && m.compress), "build-refused", "building a response that has a body failed", () => ({ ...w(), error: String(r.error) }));
          ctx.case(ops, false);
          break;
        }
        const res = r.value;
        ctx.case({ ops, b: m.bytes?.toString("base64").slice(0, 4000), k });
        ctx.observe("responses.decoded");
        const bytes = m.bytes ?? Buffer.alloc(0);
        const got = ctx.attemptSync(() => receive(res));
        if (!got.ok) {
          ctx.violation("body-undecodable", "the body cannot be decoded as the response's headers and base64 flag say", { ...w(), error: String(got.error), headers: res.headers });
          continue;
        }
        ctx.expect(same(got.value, bytes), "body-changed", "a client decoding the response does not get the supplied body", () => ({ ...w(), got: show(got.value.toString("utf8"), 200), headers: res.headers, isBase64Encoded: res.isBase64Encoded }));
        ctx.equal(res.statusCode, m.status, "status", "status code differs from the one given", w);
        ctx.equal(header(res, "content-type"), m.type, "content-type", "content type differs", w);
        ctx.equal(header(res, "content-disposition"), m.file ? `attachment; filename="${m.file}"` : undefined, "file-name", "file name header differs", w);
        ctx.equal(header(res, "location"), m.loc, "location", "location header differs", w);
        ctx.equal(header(res, "last-modified"), m.ts ? new Date(m.ts).toUTCString() : undefined, "last-modified", "last-modified header differs", w);
        const gz = header(res, "content-encoding") === "gzip";
        if (gz && bytes.length) {
          ctx.observe("responses.gzip");
          ctx.expect(m.compress && !m.b64, "compress-unasked", "the body was compressed though not requested", w);
          ctx.expect(Buffer.byteLength(res.body) < Math.ceil(bytes.length / 3) * 4, "compress-grew", "compression was kept though it made the body larger", w);
        } else if (m.compress && !m.b64 && bytes.length) {
          const z = zlib.gzipSync(bytes).toString("base64").length;
          ctx.expect(z + 40 >= Math.ceil(bytes.length / 3) * 4, "compress-dropped", "requested compression that clearly helps was not applied", w);
        }
        if (res.isBase64Encoded) ctx.observe("responses.base64");
        if (bytes.length) etagCheck(m.b64 ? "pb" : "p", bytes.toString("base64"), header(res, "etag"), { ops });
        ctx.expect(Buffer.byteLength(JSON.stringify(res)) <= LIMIT, "too-large", "a response over 6 MiB was returned", w);
      }
    }

    // --- error helpers
    const helpers = { internalError: 500, notImplemented: 501, badRequest: 400, notFound: 404, unauthorized: 401 };
    for (const [h, st] of Object.entries(helpers)) {
      for (let i = 0; i < ctx.n(40, 300); i++) {
        const e = i === 0 ? undefined : ctx.rng.bool() ? ctx.rng.text(60).toWellFormed() || "x" : { error: ctx.rng.text(10).toWellFormed(), n: ctx.rng.int(0, 9) };
        const res = LambdaProxyResponseBuilder[h](...(e === undefined ? [] : [e]));
        ctx.case({ h, e });
        ctx.equal(res.statusCode, st, `helper-status-${h}`, "error helper gives the wrong status");
        const got = receive(res);
        if (e !== undefined) ctx.expect(same(got, rawText(e)), "helper-body", "error helper changes the message", { h, e, got: got.toString() });
        ctx.equal(header(res, "content-type"), typeof e === "object" ? "application/json" : "text/plain", "helper-type", "error helper content type does not match its body", { h, e });
        if (typeof e !== "object") {
          const s = e ?? undefined;
          for (const C of [LambdaResponseBuilder, LambdaResponse]) {
            const r2 = C[h](...(s === undefined ? [] : [s]));
            ctx.equal(r2.status, st, `helper-status2-${h}`, "error helper gives the wrong status");
            if (s !== undefined) ctx.expect(same(Buffer.from(r2.body, "base64"), s), "helper-body2", "error helper changes the message", { h, s });
          }
        }
      }
    }
    ctx.equal(LambdaResponse.contentTooLarge("big").status, 413, "helper-status2-413", "content-too-large helper gives the wrong status");
    for (const s of [undefined, ...REDIRECTS]) {
      const loc = "https://" + ctx.rng.word() + "/" + ctx.rng.word();
      const res = LambdaProxyResponseBuilder.redirect(loc, ...(s ? [s] : []));
      ctx.case({ redirect: s });
      ctx.equal([res.statusCode, header(res, "location"), res.body], [s ?? 302, loc, ""], "redirect", "redirect response differs from what was asked");
    }

    // --- template (non-proxy) responses
    for (let i = 0; i < ctx.n(3000, 20000); i++) {
      const rng = ctx.rng;
      const body = bodyOf(rng, ctx);
      const isStr = typeof body === "string";
      const file = rng.maybe(() => rng.word() + ".csv");
      const ts = rng.maybe(() => rng.date());
      const kind = rng.int(0, 3);
      let res;
      let raw = Buffer.from(rawText(body));
      let status = 200;
      if (kind === 0) {
        const real = typeof body === "object" && body !== null ? body : rawText(body);
        if (real === "") continue; // the builder refuses to build without a body
        const bld = LambdaResponseBuilder.create(...(rng.bool(0.4) ? [rng.bool() ? `x${rng.text(20).toWellFormed()}` : { other: rng.int(0, 99) }] : [real]));
        if (bld.body !== rawText(real)) {
          // the body is given, or given again, later
          if (rng.bool(0.3) && bld.body) bld.build();
          bld.withBody(real);
        }
        const steps = rng.shuffle([
          () => file && bld.withFileName(file),
          () => ts && bld.withTimestamp(rng.bool() ? ts : ts.toISOString()),
          () => rng.bool(0.3) && bld.withStatus((status = rng.pick([200, 201, 400, 404, 500]))),
        ]);
        for (const s of steps) s();
        res = bld.build();
      } else if (kind === 1) res = LambdaResponse.okJson(body, file);
      else if (kind === 2) res = LambdaResponse.ok(rawText(body), file);
      else {
        raw = Buffer.from(rng.array(rng.int(1, 90), () => rng.int(0, 255)));
        res = LambdaResponse.okBinary(raw.toString("base64"), file);
      }
      if (kind === 1 && isStr) raw = Buffer.from(JSON.stringify(body));
      if (kind > 0 && ts) {
        const before = res;
        const snap = { ...before };
        res = before.withTimestamp(ts);
        ctx.equal({ ...before }, snap, "timestamp-mutates", "adding a timestamp changed the original response");
      }
      ctx.case({ kind, raw: raw.toString("base64").slice(0, 3000), file, ts, status });
      ctx.observe("responses.decoded");
      const w = () => ({ kind, body: show(raw.toString(), 120), file, ts, res: show({ ...res }, 400) });
      ctx.expect(same(Buffer.from(res.body, "base64"), raw), "template-body", "the template response does not decode to the supplied body", w);
      ctx.expect(/^[A-Za-z0-9+/]*={0,2}$/.test(res.body), "template-base64", "the template response body is not base64", w);
      ctx.equal(res.status, status, "template-status", "status differs", w);
      ctx.equal(res.fileName, file, "template-file", "file name differs", w);
      ctx.equal(res.timestamp, ts?.toUTCString(), "template-timestamp", "timestamp differs", w);
      etagCheck(kind === 0 ? "t" : "t2", raw.toString("base64"), res.etag, { kind });
    }

    // --- size limit
    const sizes = ctx.quick ? [-300, -40, 300] : [-2000, -300, -100, -40, 40, 300, 5000, 200000];
    for (const d of sizes) {
      for (const ch of ctx.quick ? ["a", '"', "€"] : ["a", '"', "€", "😀", "\\"]) {
        const unit = Buffer.byteLength(JSON.stringify(ch)) - 2;
        const body = ch.repeat(Math.ceil((LIMIT + d - 250) / unit));
        const ideal = { statusCode: 200, headers: { "Content-Type": "application/json", ETag: '"123456-aaaaaaaaaaaaaaaaaaaaaaaaaaa"' }, body, isBase64Encoded: false };
        const size = Buffer.byteLength(JSON.stringify(ideal));
        const res = LambdaProxyResponseBuilder.create(body).build();
        const rs = Buffer.byteLength(JSON.stringify(res));
        ctx.case({ size, ch });
        ctx.expect(rs <= LIMIT, "too-large", "a response over 6 MiB was returned", { size, rs });
        if (size > LIMIT + 20) {
          ctx.observe("responses.oversize");
          ctx.expect(res.statusCode >= 400 && res.statusCode < 500, "oversize-status", "an oversized response was not replaced by a client error", { size, status: res.statusCode });
        } else if (size < LIMIT - 20) ctx.expect(res.statusCode === 200 && same(receive(res), body), "oversize-false", "a response within the limit was rejected", { size, status: res.statusCode });
        // base64 template flavour: 4/3 growth
        const raw = ch.repeat(Math.ceil(((LIMIT + d - 150) * 3) / 4 / Buffer.byteLength(ch)));
        const tsize = Buffer.byteLength(JSON.stringify({ status: 200, body: Buffer.from(raw).toString("base64"), etag: ideal.headers.ETag }));
        const tr = LambdaResponseBuilder.create(raw).build();
        ctx.case({ tsize, ch });
        ctx.expect(Buffer.byteLength(JSON.stringify(tr)) <= LIMIT, "too-large-template", "a template response over 6 MiB was returned", { tsize });
        if (tsize > LIMIT + 20) {
          ctx.observe("responses.oversize");
          ctx.expect(tr.status >= 400 && tr.status < 500, "oversize-status-template", "an oversized response was not replaced by a client error", { tsize, status: tr.status });
        } else if (tsize < LIMIT - 20) ctx.expect(tr.status === 200, "oversize-false-template", "a response within the limit was rejected", { tsize, status: tr.status });
      }
    }
    // sizes right at the limit, whatever the rest of the response consists of
    for (let i = 0; i < ctx.n(24, 120); i++) {
      const rng = ctx.rng;
      const file = rng.maybe(() => rng.word(1, 40) + ".json", 0.7);
      const ts = rng.maybe(() => rng.date(), 0.7);
      const loc = rng.maybe(() => "https://x/" + rng.word(1, 90), 0.5);
      const status = rng.pick([200, 201, 404]);
      const attrs = (b) => {
        if (file) b.withFileName(file);
        if (ts) b.withTimestamp(ts);
        if (loc && b.withLocation) b.withLocation(loc);
        return b.withStatus(status);
      };
      for (const [C, step, unit] of [[LambdaProxyResponseBuilder, 1, 1], [LambdaResponseBuilder, 3, 4]]) {
        const base = attrs(C.create("x".repeat(step * 100))).build();
        const over = Buffer.byteLength(JSON.stringify(base)) - 100 * unit;
        for (const d of rng.subset([-120, -60, -20, 30, 60, 100, 150], ctx.quick ? 0.45 : 1)) {
          // entity tags carry the length, so the size may be off by a few bytes
          const body = "x".repeat(Math.floor((LIMIT + d - over) / unit) * step);
          const r = attrs(C.create(body)).build();
          const rs = Buffer.byteLength(JSON.stringify(r));
          ctx.case({ edge: C.name, over, d });
          ctx.expect(rs <= LIMIT, "too-large-edge", "a response over 6 MiB was returned", { d, rs, over, file, loc });
          const st = r.statusCode ?? r.status;
          if (d > 0) {
            ctx.observe("responses.oversize");
            ctx.expect(st === 400 && rs < 2000, "oversize-status-edge", "an oversized response was not replaced by a client error", { d, st, rs });
          } else if (d <= -20) ctx.expect(st === status && rs > LIMIT - 300, "oversize-false-edge", "a response within the limit was rejected", { d, st, rs });
        }
      }
    }
    // a big compressible body must fit thanks to compression
    const big = JSON.stringify(Array.from({ length: 150000 }, (_, i) => ({ id: i, name: "measurement station", ok: true })));
    const res = LambdaProxyResponseBuilder.create(big).withCompression().build();
    ctx.case({ big: big.length });
    ctx.expect(res.statusCode === 200 && same(receive(res), big), "compressed-big", "a body that fits when compressed was not delivered", { status: res.statusCode, len: big.length });
  },
};

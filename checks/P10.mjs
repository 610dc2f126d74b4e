import { z } from "/repo/lib/digitraffic-common/node_modules/zod/index.js";
import { lib } from "../harness/hooks.mjs";
import zlib from "node:zlib";
const { parseQueryParams } = await lib("utils/lambda-proxy-event.ts");
const ID = await lib("marine/id_utils.ts");
const ZU = await lib("utils/zod-utils.ts");
const V = await lib("types/validator.ts");
const B = await lib("utils/base64.ts");
const D = await lib("utils/date-utils.ts");
const U = await lib("utils/utils.ts");

function imoOk(n) {
  if (!Number.isInteger(n) || n < 1000000 || n > 9999999) return false;
  const d = [...String(n)].map(Number);
  return d.slice(0, 6).reduce((s, x, i) => s + x * (7 - i), 0) % 10 === d[6];
}
function refOmit(v, keys) {
  if (Array.isArray(v)) return v.map((x) => refOmit(x, keys));
  if (v && typeof v === "object") return Object.fromEntries(Object.entries(v).filter(([k]) => !keys.includes(k)).map(([k, x]) => [k, refOmit(x, keys)]));
  return v;
}
const pad = (n, l = 2) => String(n).padStart(l, "0");

export default {
  id: "P10",
  rule: "A case is one input (query string event, vessel or port identifier, parameter text, date, encoded text, object to filter, array, environment) run through the shared parser or helper and judged by an independent reference; non-trivial when accepted and rejected outcomes are compared by value.",
  assumptions: ["Query parameter names are not JavaScript prototype names; objects to filter are JSON-like."],
  run(ctx) {
    ctx.require("queries", 1000);
    ctx.require("imo-valid", 100);
    ctx.require("imo-invalid", 100);
    ctx.require("rejected", 300);
    const rng = ctx.rng;
    // --- query strings
    for (let i = 0; i < ctx.n(6000, 60000); i++) {
      const names = ["from", "to", "id", "tag", "q", "x-y", "ä"];
      const multi = {};
      const single = {};
      for (const n of rng.subset(names)) {
        const vs = rng.array(rng.int(1, 3), () => rng.pick(["", "0", "a", "a,b", rng.text(6), "null"]));
        const form = rng.int(0, 5);
        if (form !== 0) multi[n] = vs;
        if (form !== 1) single[n] = vs[vs.length - 1];
        if (form === 2) delete multi[n];
        if (form === 5 && rng.bool(0.3)) { single[n] = undefined; delete multi[n]; }
      }
      const ev = { queryStringParameters: Object.keys(single).length || rng.bool() ? single : null, multiValueQueryStringParameters: Object.keys(multi).length || rng.bool() ? multi : null };
      const forced = rng.subset(names, 0.3);
      const snap = JSON.stringify(ev);
      const got = ctx.attemptSync(() => parseQueryParams(ev, ...(forced.length || rng.bool() ? [forced] : [])));
      const want = {};
      for (const n of new Set([...Object.keys(single), ...Object.keys(multi)])) {
        const vs = multi[n] ?? (single[n] === undefined ? undefined : [single[n]]);
        if (vs) want[n] = forced.includes(n) || vs.length > 1 ? vs : vs[0];
      }
      ctx.case({ snap, forced }, Object.keys(want).length > 0);
      ctx.observe("queries");
      ctx.expect(got.ok, "query-throws", "parsing query parameters threw", { ev, e: String(got.error) });
      if (got.ok) ctx.equal({ ...got.value }, want, "query", "query parameters were lost, invented or changed", { ev, forced });
      ctx.expect(JSON.stringify(ev) === snap, "query-mutates", "the event was changed", { ev });
    }
    // --- identifiers
    for (let i = 0; i < ctx.n(20000, 300000); i++) {
      const n = rng.pick([rng.int(1000000, 9999999), rng.int(9000000, 9999999), rng.int(0, 1000000), rng.int(9999990, 10000100), -rng.int(1000000, 9999999), 0, Number.NaN, 1000000, 9999999, 999999, 10000000, rng.int(10000000, 99999999)]);
      const want = imoOk(n);
      ctx.observe(want ? "imo-valid" : "imo-invalid");
      ctx.expect(ID.isValidIMO(n) === want, want ? "imo-rejected" : "imo-accepted", "IMO validity is not range plus check digit", { n, want });
      if (i % 10 === 0) ctx.case({ imo: n });
      const m = rng.pick([rng.int(100000000, 999999999), 99999999, 100000000, 999999999, 1000000000, 0, -123456789, rng.int(0, 2e9)]);
      ctx.expect(ID.isValidMMSI(m) === (m >= 100000000 && m <= 999999999), "mmsi", "MMSI validity is not exactly nine digits", { m });
    }
    for (let i = 0; i < ctx.n(4000, 30000); i++) {
      const L = () => rng.pick("ABCDEFGHIJKLMNOPQRSTUVWXYZabcxyz".split(""));
      const s = rng.pick([() => "FI" + L() + L() + L(), () => rng.pick(["fi", "Fi", "SE", "F", "XFI", ""]) + L() + L() + L(), () => "FI" + L() + L(), () => "FI" + L() + L() + L() + L(), () => "FI" + L() + "1" + L(), () => " FI" + L() + L() + L(), () => "FI" + L() + L() + L() + "\n", () => "FI" + L() + "Ä" + L(), () => ""])();
      const want = s.length === 5 && s.slice(0, 2).toUpperCase() === "FI" && [...s.slice(2)].every((c) => /[A-Za-z]/.test(c));
      ctx.case({ locode: s });
      ctx.expect(ID.isValidLOCODE(s) === want, "locode", "LOCODE validity is not FI plus three letters", { s, want });
    }
    // --- typed parameters
    for (let i = 0; i < ctx.n(5000, 40000); i++) {
      const msg = rng.maybe(() => "msg " + rng.word());
      const s = rng.pick([() => "", () => String(rng.int(-1e6, 1e6)), () => String(rng.float()), () => "1e3", () => "0", () => "-0.5", () => "12abc", () => rng.text(6), () => "NaN", () => "0x1f", () => "1,5", () => rng.date().toISOString(), () => "2024-02-30T25:00:00Z", () => "2024-13-01", () => "yesterday", () => "2024-05-06"])();
      for (const [kind, sch, ref] of [
        ["number", ZU.zStringToNumber(msg), (x) => (x === "" ? undefined : Number.isNaN(Number(x)) ? null : Number(x))],
        ["date", ZU.zStringToDate(msg), (x) => (x === "" ? undefined : Number.isNaN(new Date(x).getTime()) ? null : new Date(x))],
        ["non-empty", ZU.zNonEmptyString(msg), (x) => (x === "" ? null : x)],
      ]) {
        const obj = z.object({ p: rng.bool() ? sch : sch.optional() });
        const r = obj.safeParse({ p: s });
        const want = ref(s);
        ctx.case({ kind, s });
        if (want === null) {
          ctx.observe("rejected");
          ctx.expect(!r.success, `param-accepted-${kind}`, "an invalid parameter was accepted", { kind, s, got: r.data });
          if (!r.success && msg) ctx.expect(r.error.issues.some((x) => x.message === msg), "param-message", "the configured message is not reported", { kind, s, issues: r.error.issues });
        } else {
          ctx.expect(r.success, `param-rejected-${kind}`, "a valid parameter was rejected", { kind, s });
          if (r.success) ctx.equal(r.data.p, want, `param-value-${kind}`, "a parameter was converted to another value", { kind, s });
        }
      }
      const o = z.object({ a: ZU.zStringToNumber().optional(), b: ZU.zStringToDate().optional(), c: ZU.zNonEmptyString().optional() }).safeParse({});
      ctx.expect(o.success && o.data.a === undefined && o.data.b === undefined && o.data.c === undefined, "param-optional", "an absent optional parameter was rejected");
      const q = z.object({ a: ZU.zStringToNumber() }).safeParse({});
      ctx.expect(!q.success, "param-required", "an absent required parameter was accepted");
    }
    for (let y = 1850; y <= 2150; y++) {
      ctx.expect(V.validateYear(y) === (y >= 1900 && y <= 2100), "year", "year range is wrong", { y });
      ctx.expect(V.validateYear(y, 2000, 2010) === (y >= 2000 && y <= 2010), "year", "custom year range is wrong", { y });
    }
    for (let m = -5; m <= 20; m++) ctx.expect(V.validateMonth(m) === (m >= 1 && m <= 12), "month", "month range is wrong", { m });
    // --- dates
    const zones = ["UTC", "Europe/Helsinki", "America/New_York", "Asia/Kolkata", "Pacific/Auckland"];
    for (let i = 0; i < ctx.n(3000, 30000); i++) {
      process.env.TZ = rng.pick(zones);
      const a = rng.date();
      const b = rng.date();
      ctx.case({ a, b, tz: process.env.TZ });
      const f = (d) => `${pad(d.getUTCFullYear(), 4)}-${pad(d.getUTCMonth() + 1)}-${pad(d.getUTCDate())} ${pad(d.getUTCHours())}:${pad(d.getUTCMinutes())}`;
      ctx.equal(D.dateToUTCString(a, D.MYSQL_DATETIME_FORMAT), f(a), "utc-format", "a date was not formatted in UTC", { a: a.toISOString(), tz: process.env.TZ });
      ctx.equal(D.dateToUTCString(a, "yyyy-MM-dd'T'HH:mm:ss.SSS"), a.toISOString().slice(0, 23), "utc-format", "a date was not formatted in UTC", { a: a.toISOString(), tz: process.env.TZ });
      ctx.expect(D.countDiffMs(a, b) === b.getTime() - a.getTime() && Math.abs(D.countDiffInSeconds(a, b) - (b - a) / 1000) < 1e-9, "diff", "a time difference is wrong", { a, b });
      const iso = rng.pick([a.toISOString(), a.toISOString().slice(0, 19) + "+03:00"]);
      const p = ctx.attemptSync(() => D.dateFromIsoString(iso));
      ctx.expect(p.ok && p.value.getTime() === Date.parse(iso), "iso", "an ISO date was not parsed", { iso });
      const bad = rng.pick(["", "x", "2024-13-01T00:00:00Z", "2024-01-01T25:00:00Z", "20240101T", rng.word(4, 9) + "!"]);
      const q = ctx.attemptSync(() => D.dateFromIsoString(bad));
      ctx.expect(Number.isNaN(Date.parse(bad)) ? !q.ok : true, "iso-bad", "an invalid ISO date was accepted", { bad, got: q.value });
    }
    process.env.TZ = "UTC";
    ctx.expect(D.EPOCH.getTime() === 0, "epoch", "the epoch constant is not the epoch");
    // --- base64
    for (let i = 0; i < ctx.n(3000, 30000); i++) {
      const s = rng.text(200).toWellFormed();
      const ascii = rng.array(rng.int(0, 40), () => String.fromCharCode(rng.int(0, 127))).join("");
      ctx.case({ b64: s });
      ctx.expect(B.decodeBase64ToUtf8(B.encodeUtf8ToBase64(s)) === s && B.encodeUtf8ToBase64(s) === Buffer.from(s, "utf8").toString("base64"), "b64-utf8", "text did not survive base64", { s });
      ctx.expect(B.decodeBase64ToAscii(B.encodeAsciiToBase64(ascii)) === ascii && B.encodeAsciiToBase64(ascii) === Buffer.from(ascii).toString("base64"), "b64-ascii", "ASCII text did not survive base64", { ascii });
      const enc = rng.pick(["utf8", "latin1", "utf16le", "ascii"]);
      const t = enc === "utf8" || enc === "utf16le" ? s : ascii;
      ctx.expect(B.decodeBase64(B.encodeBase64(t, enc), enc) === t, "b64-enc", "text did not survive base64 in its encoding", { t, enc });
      const zip = B.compressBuffer(Buffer.from(s));
      ctx.expect(zlib.gunzipSync(zip).toString() === s && B.decodeBase64ToUtf8(zip.toString("base64"), true) === s, "gzip", "text did not survive compression", { s });
    }
    // --- collections and environment
    for (let i = 0; i < ctx.n(4000, 40000); i++) {
      const o1 = { a: 1 };
      const pool = [1, 2, "1", "a", null, undefined, o1, { a: 1 }, 0, "", Number.NaN];
      const A = rng.pick([null, undefined, rng.array(rng.int(0, 5), () => rng.pick(pool))]);
      const Bv = rng.pick([null, undefined, A && rng.shuffle(A), rng.array(rng.int(0, 5), () => rng.pick(pool))]);
      const want = !A || !Bv ? !A && !Bv : [...A].every((x) => Bv.includes(x)) && [...Bv].every((x) => A.includes(x));
      ctx.case({ A, Bv: Bv?.map?.(String) });
      ctx.expect(U.bothArraysHasSameValues(A, Bv) === want, "same-values", "array value comparison is wrong", { A, Bv, want });

      const arr = rng.array(rng.int(0, 6), () => ({ k: rng.int(0, 50) }));
      const copy = [...arr];
      const key = rng.pick([undefined, (x) => x.k, (x) => -x.k]);
      for (const [n, f] of [["first", U.getFirst], ["last", U.getLast]]) {
        const r = ctx.attemptSync(() => f(arr, ...(key ? [key] : [])));
        if (!arr.length) ctx.expect(!r.ok, "empty-element", "an element of an empty array was invented", { n });
        else {
          const sorted = key ? [...copy].sort((a, b) => key(a) - key(b)) : copy;
          const e = n === "first" ? sorted[0] : sorted[sorted.length - 1];
          ctx.expect(r.ok && (key ? key(r.value) === key(e) : r.value === e), "first-last", "not the first/last element in the asked order", { n, arr, got: r.value });
        }
        ctx.expect(arr.length === copy.length && arr.every((x, k) => x === copy[k]), "first-last-mutates", "the caller's array was changed", { arr, copy });
      }
      const doc = rng.json(4);
      const keys = rng.subset(["a", "b", "id", "x", ...(doc && typeof doc === "object" ? Object.keys(doc) : [])], 0.4);
      const snap = JSON.stringify(doc);
      ctx.equal(U.omitDeep(doc, ...keys), refOmit(doc, keys), "omit", "deep omission removed or kept the wrong keys", { doc, keys });
      ctx.expect(JSON.stringify(doc) === snap, "omit-mutates", "deep omission changed its input", { doc });

      const k = "VTEST_" + rng.word(1, 3).toUpperCase();
      const val = rng.maybe(() => rng.text(8).replaceAll("\u0000", ""), 0.6);
      if (val === undefined) delete process.env[k];
      else U.setEnvVariable(k, val);
      const g = ctx.attemptSync(() => U.getEnvVariable(k));
      ctx.expect(val === undefined ? !g.ok : g.ok && g.value === val, "env", "an environment variable was misread", { k, val, got: g.value });
      ctx.expect(U.getEnvVariableOrElse(k, "dflt") === (val ?? "dflt") && U.getEnvVariableOr(k, () => 7) === (val ?? 7), "env-default", "an environment default was misapplied", { k, val });
      const safe = U.getEnvVariableSafe(k);
      ctx.expect(val === undefined ? safe.result === "error" && safe.message.includes(k) : safe.result === "ok" && safe.value === val, "env-safe", "a safe environment read was wrong", { k, val, safe });
      delete process.env[k];
      const e = rng.pick([new Error(rng.word()), new TypeError("t"), "s", 5, null, undefined, { toString: () => "obj" }]);
      ctx.expect(U.getErrorMessage(e) === (e instanceof Error ? `${e.name}: ${e.message}` : String(e)), "error-message", "an error message was lost", { e });
      ctx.expect(U.isDefined(e) === (e !== null && e !== undefined), "defined", "definedness is wrong", { e });
    }
  },
};

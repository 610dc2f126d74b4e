import fs from "node:fs";
import path from "node:path";
import { createHash } from "node:crypto";
import { fileURLToPath } from "node:url";
import { inspect, isDeepStrictEqual } from "node:util";
import { Rng, fnv } from "./rng.mjs";

export const VERIF = path.dirname(path.dirname(fileURLToPath(import.meta.url)));

export function out(line) {
  fs.writeSync(1, line + "\n");
}

export function show(v, max = 600) {
  let s;
  try {
    s = typeof v === "string" ? JSON.stringify(v) : inspect(v, { depth: 6, breakLength: Infinity, maxStringLength: 400, maxArrayLength: 40 });
  } catch {
    s = "<uninspectable>";
  }
  return s.length > max ? s.slice(0, max) + `…(${s.length})` : s;
}

const MAX_REPORTS = 25;

export class Ctx {
  constructor(check, { seed, tier }) {
    this.check = check;
    this.id = check.id;
    this.seed = seed;
    this.tier = tier;
    this.rng = new Rng((fnv(check.id) ^ Math.imul(seed, 2654435761)) >>> 0);
    this.evaluations = 0;
    this.distinct = new Set();
    this.samples = [];
    this.counters = {};
    this.required = [];
    this.violations = new Map();
    this.knownHits = new Map();
    this.t0 = Date.now();
    this.known = loadKnown(check.id);
    this.logLines = [];
  }
  get quick() {
    return this.tier !== "thorough";
  }
  /** workload size by tier */
  n(q, t) {
    return this.quick ? q : t;
  }
  /** count one evaluated case; key identifies it, nontrivial by the check's rule */
  case(key, nontrivial = true, sample) {
    this.evaluations++;
    if (nontrivial) {
      const k = typeof key === "string" ? key : JSON.stringify(key, (_, v) => (typeof v === "bigint" ? `${v}n` : v instanceof Map ? [...v] : v));
      const h = createHash("sha1").update(k ?? "undefined").digest("base64url").slice(0, 14);
      const before = this.distinct.size;
      this.distinct.add(h);
      if (this.distinct.size > before && (this.samples.length < 6 || (this.evaluations % 997 === 0 && this.samples.length < 14)))
        this.samples.push(show(sample ?? key, 400));
    }
  }
  observe(name, n = 1) {
    this.counters[name] = (this.counters[name] ?? 0) + n;
  }
  /** the monitors must have observed at least `min` of `name`, or the run is inconclusive */
  require(name, min = 1) {
    this.required.push([name, min]);
  }
  violation(key, message, witness) {
    for (const k of this.known)
      if (k.re.test(key)) {
        if (!this.knownHits.has(k.key)) this.knownHits.set(k.key, { what: k.what, witness: show(witness, 300), n: 0 });
        this.knownHits.get(k.key).n++;
        return;
      }
    const v = this.violations.get(key);
    if (v) {
      v.count++;
      return;
    }
    this.violations.set(key, { key, message, witness, count: 1 });
  }
  /** oracle helper */
  expect(cond, key, message, witness) {
    this.observe("assertions");
    if (!cond) this.violation(key, message, typeof witness === "function" ? witness() : witness);
    return !!cond;
  }
  equal(actual, expected, key, message, witness) {
    this.observe("assertions");
    if (isDeepStrictEqual(actual, expected)) return true;
    this.violation(key, message, {
      actual,
      expected,
      ...(witness === undefined ? {} : { witness: typeof witness === "function" ? witness() : witness }),
    });
    return false;
  }
  /** run code under test; returns {ok, value|error} */
  async attempt(f) {
    try {
      return { ok: true, value: await f() };
    } catch (error) {
      return { ok: false, error };
    }
  }
  attemptSync(f) {
    try {
      return { ok: true, value: f() };
    } catch (error) {
      return { ok: false, error };
    }
  }
  finish() {
    const missing = this.required.filter(([n, m]) => (this.counters[n] ?? 0) < m);
    const wall_s = Math.round((Date.now() - this.t0) / 10) / 100;
    const ev = {
      property: this.id,
      tier: this.quick ? "quick" : "thorough",
      seed: this.seed,
      level: this.check.level ?? "exploration",
      coverage: {
        evaluations: this.evaluations,
        distinct_nontrivial: this.distinct.size,
        rule: this.check.rule,
        samples: this.samples.length ? this.samples : ["(none)"],
        observed: this.counters,
        ...(this.extra ?? {}),
      },
      assumptions: this.check.assumptions ?? [],
      wall_s,
      violations: this.violations.size,
    };
    fs.mkdirSync(path.join(VERIF, "evidence"), { recursive: true });
    fs.writeFileSync(path.join(VERIF, "evidence", `${this.id}.json`), JSON.stringify(ev, null, 1) + "\n");
    for (const k of this.known) {
      const h = this.knownHits.get(k.key);
      if (h) out(`KNOWN-FINDING: property=${this.id} ${k.what} [key=${k.key}; seen ${h.n}x]`);
    }
    if (this.violations.size) {
      const dir = path.join(VERIF, "replays");
      fs.mkdirSync(dir, { recursive: true });
      let i = 0;
      for (const v of this.violations.values()) {
        if (i >= MAX_REPORTS) break;
        const file = path.join(dir, `${this.id}-${++i}.json`);
        fs.writeFileSync(
          file,
          JSON.stringify(
            {
              property: this.id,
              key: v.key,
              message: v.message,
              count: v.count,
              seed: this.seed,
              tier: this.tier,
              rerun: `VERIF_SEED=${this.seed} VERIF_TIER=${this.tier} node harness/run.mjs ${this.id}`,
              witness: show(v.witness, 6000),
            },
            null,
            1,
          ) + "\n",
        );
        out(`VIOLATION property=${this.id} replay=${path.relative(VERIF, file)}`);
        out(`  ${v.key}: ${v.message} (${v.count}x) ${show(v.witness, 1200)}`);
      }
      return 1;
    }
    out(
      `${this.id} ${ev.tier}: held on ${this.evaluations} executions (${this.distinct.size} distinct non-trivial), ` +
        `${Object.entries(this.counters).map(([k, v]) => `${k}=${v}`).join(" ")} in ${wall_s}s`,
    );
    if (missing.length) {
      out(`INCONCLUSIVE property=${this.id} observed too little: ${missing.map(([n, m]) => `${n}<${m}`).join(", ")}`);
      return 2;
    }
    if (!this.evaluations || !this.distinct.size) {
      out(`INCONCLUSIVE property=${this.id} nothing was observed`);
      return 2;
    }
    return 0;
  }
}

function loadKnown(id) {
  const f = path.join(VERIF, "known-findings.txt");
  if (!fs.existsSync(f)) return [];
  const res = [];
  for (const line of fs.readFileSync(f, "utf8").split("\n")) {
    const m = /^known: property=(\S+) key=(\S+) (.*)$/.exec(line.trim());
    if (m && m[1] === id) res.push({ key: m[2], what: m[3], re: new RegExp("^" + m[2].replace(/[.+?^${}()|[\]\\]/g, "\\$&").replaceAll("*", ".*") + "$") });
  }
  return res;
}

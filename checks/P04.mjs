import net from "node:net";
import { lib } from "../harness/hooks.mjs";
import { FakePg } from "../harness/fakepg.mjs";
import { isDeepStrictEqual } from "node:util";
import { realTimers } from "../harness/clock.mjs";
import { show } from "../harness/ctx.mjs";

const sleep = (ms) => new Promise((r) => realTimers.setTimeout(r, ms));
class WorkError extends Error {}

export default {
  id: "P04",
  rule: "A case is one unit of database work (plain, read-only or transactional; queries, nested transactions, failures injected in the log-in, the session reset, a statement, the work itself, the commit, or by dropping the connection; several concurrently) run by the real client against PostgreSQL servers on loopback; the servers' session logs are checked. Non-trivial when a session was opened.",
  assumptions: ["The servers are protocol-level stand-ins; statement semantics are scripted.", "Credentials are URL-safe strings except in the dedicated credential cases."],
  ignoreUnhandled: () => false,
  async run(ctx) {
    ctx.require("sessions", 200);
    ctx.require("commits", 20);
    ctx.require("rollbacks", 20);
    ctx.require("faults", 50);
    const D = await lib("database/database.ts");
    const rw = await new FakePg("rw").start();
    const ro = await new FakePg("ro").start();
    const dead = await new Promise((r) => {
      const s = net.createServer();
      s.listen(0, "127.0.0.1", () => {
        const p = s.address().port;
        s.close(() => r(p));
      });
    });
    let script = new Map(); // tag -> result
    let loginOk = true;
    let resetFault;
    for (const s of [rw, ro]) {
      s.acceptLogin = () => loginOk;
      s.onQuery = (ses, sql) => {
        if (/discard|deallocate|reset all/i.test(sql)) {
          if (resetFault === "error") return { error: { message: "reset refused", code: "55000" } };
          if (resetFault === "destroy") return { destroy: true };
          return { command: "DISCARD ALL" };
        }
        if (/^\s*commit/i.test(sql) && script.get("commit")) return script.get("commit");
        const m = /tag(\d+)/.exec(sql);
        return m ? (script.get(m[1]) ?? { rows: [], fields: [] }) : { rows: [], fields: [] };
      };
    }
    let tagSeq = 0;
    let leaks = 0;
    const mkRows = (rng) => {
      const fields = [
        { name: "i8", type: "int8" }, { name: "f8", type: "float8" }, { name: "num", type: "numeric" }, { name: "txt", type: "text" }, { name: "b", type: "bool" }, { name: "j", type: "json" }, { name: "i4", type: "int4" },
      ];
      const rows = rng.array(rng.int(0, 4), () => {
        const r = { i8: rng.pick([rng.int(-1e9, 1e9), 0, Number.MAX_SAFE_INTEGER, -Number.MAX_SAFE_INTEGER]), f8: rng.pick([rng.float(), -1.5, 1e-300, 3, 0.1]), num: rng.pick([rng.int(0, 1e6) / 100, -0.5, 12345.678, 0]), txt: rng.text(12).replaceAll("\u0000", ""), b: rng.bool(), j: { a: rng.int(0, 9), n: null }, i4: rng.int(-9, 9) };
        for (const k of Object.keys(r)) if (rng.bool(0.2)) r[k] = null;
        return r;
      });
      return { fields, rows };
    };
    try {
      for (let i = 0; i < ctx.n(3000, 30000); i++) {
        const rng = ctx.rng;
        const user = "user" + rng.word();
        const pass = "pw" + rng.word();
        const app = rng.maybe(() => "app-" + rng.word(), 0.8);
        Object.assign(process.env, { DB_USER: user, DB_PASS: pass, DB_URI: rw.uri, DB_RO_URI: ro.uri });
        if (app) process.env.DB_APPLICATION = app;
        else delete process.env.DB_APPLICATION;
        const scenario = rng.pick(["ok", "ok", "ok", "work-throws", "work-throws", "query-error", "login", "reset-error", "reset-destroy", "conn-destroy", "commit-error", "unreachable", "missing-env"]);
        loginOk = scenario !== "login";
        resetFault = scenario === "reset-error" ? "error" : scenario === "reset-destroy" ? "destroy" : undefined;
        const par = rng.bool(0.25) ? rng.int(2, 3) : 1;
        script = new Map();
        if (scenario === "commit-error") script.set("commit", { error: { message: "commit failed", code: "40001" } });
        if (scenario === "unreachable") process.env.DB_URI = process.env.DB_RO_URI = `127.0.0.1:${dead}/db`;
        let missing;
        if (scenario === "missing-env") {
          missing = rng.pick(["DB_USER", "DB_PASS", "DB_URI"]);
          delete process.env[missing];
          if (missing === "DB_URI") delete process.env.DB_RO_URI;
        }
        const b0 = [rw.sessions.length, ro.sessions.length];
        const jobs = [];
        for (let j = 0; j < par; j++) {
          const kind = rng.pick(["inDatabase", "inDatabaseReadonly", "inTransaction"]);
          const conv = rng.pick([undefined, false, true]);
          const steps = rng.array(rng.int(1, 4), () => {
            const tag = String(++tagSeq);
            const data = mkRows(rng);
            script.set(tag, data);
            return { tag, data, prepared: rng.bool(0.3), nested: rng.bool(0.15) };
          });
          const failAt = scenario === "query-error" || scenario === "conn-destroy" ? rng.int(0, steps.length - 1) : -1;
          if (failAt >= 0) script.set(steps[failAt].tag, scenario === "query-error" ? { error: { message: "bad query", code: "22012" } } : { destroy: true });
          const circ = { e: 1 };
          circ.self = circ;
          const thrown = rng.pick([new WorkError("work " + i), Object.assign(new WorkError("circ"), { circ }), "string error", circ, { code: 5 }, undefined]);
          const result = rng.pick([undefined, null, 0, { r: i }, [1, 2]]);
          jobs.push({ kind, conv, steps, failAt, thrown, result, seen: [], entered: 0, doneWork: false });
        }
        const T0 = Date.now();
        const outs = await Promise.all(
          jobs.map(async (job) => {
            const work = async (db) => {
              job.entered++;
              for (const s of job.steps) {
                const sql = `select /* tag${s.tag} */ *`;
                const q = (d) => (s.prepared ? d.any({ name: "ps" + s.tag, text: sql + " where a=$1", values: [1] }) : d.any(sql));
                const rows = s.nested ? await db.tx((t) => q(t)) : await q(db);
                job.seen.push(rows);
              }
              job.doneWork = true;
              if (scenario === "work-throws") throw job.thrown;
              return job.result;
            };
            return ctx.attempt(() => D[job.kind](work, ...(job.conv === undefined ? [] : [job.conv])));
          }),
        );
        const T1 = Date.now();
        // closing is asynchronous on the server's side
        for (let k = 0; k < (leaks > 5 ? 50 : 400) && (rw.open() || ro.open()); k++) await sleep(k < 50 ? 1 : 10);
        const ses = [...rw.sessions.slice(b0[0]), ...ro.sessions.slice(b0[1])];
        if (process.env.PROF) { ctx.observe('ms.' + scenario + '.run', T1 - T0); ctx.observe('ms.' + scenario + '.close', Date.now() - T1); ctx.observe('n.' + scenario); }
        ctx.observe("sessions", ses.length);
        if (scenario !== "ok") ctx.observe("faults");
        const W = (job, o) => ({ scenario, kind: job?.kind, conv: job?.conv, out: o && (o.ok ? show(o.value, 100) : show(o.error, 150)), sessions: ses.map((s) => ({ server: s.server, user: s.params.user, app: s.params.application_name, events: s.events.map((e) => e.type + (e.sql ? ":" + e.sql : "")) })) });
        ctx.case({ scenario, kinds: jobs.map((j) => [j.kind, j.conv, j.steps.map((s) => [s.prepared, s.nested]), j.failAt]), i }, ses.length > 0);
        if (rw.open() || ro.open()) {
          leaks++;
          ctx.violation("connection-leak", "a database connection stayed open after the unit of work ended", W());
          for (const s of [...rw.sessions, ...ro.sessions]) s.socket.destroy();
          await sleep(5);
        }
        for (const s of ses) {
          ctx.expect(s.params.user === user, "user", "a session was opened as another user", W());
          if (s.password !== undefined) ctx.expect(s.password === pass, "password", "a session was opened with another password", W());
          ctx.expect(s.params.application_name === (app ?? "unknown-cdk-application"), "application", "the session does not carry the application's name", W());
          ctx.expect(s.params.database === "db", "database", "a session was opened on another database", W());
          const qs = s.events.filter((e) => e.type === "query");
          if (qs.length) ctx.expect(/discard\s+all/i.test(qs[0].sql), "reset-first", "work ran on a session before its leftover state was discarded", W());
        }
        jobs.forEach((job, j) => {
          const o = outs[j];
          const server = job.kind === "inDatabaseReadonly" ? "ro" : "rw";
          const mine = ses.filter((s) => s.events.some((e) => e.sql && job.steps.some((st) => new RegExp(`tag${st.tag}\\b`).test(e.sql))));
          const w = () => W(job, o);
          ctx.expect(mine.every((s) => s.server === server), "endpoint", "work ran on the wrong database endpoint", w);
          const conn = ["login", "reset-error", "reset-destroy", "unreachable", "missing-env"].includes(scenario);
          if (conn) {
            ctx.expect(!o.ok, "setup-failure-hidden", "work reported success although no usable session could be set up", w);
            if (scenario !== "missing-env" || true) ctx.expect(job.entered === 0 && mine.length === 0, "work-without-session", "work ran although its session could not be set up", w);
            return;
          }
          ctx.expect(job.entered === 1, "work-once", "the work was not run exactly once", w);
          ctx.expect(mine.length === 1, "one-session", "one unit of work was spread over several sessions", w);
          const evs = mine[0]?.events.filter((e) => e.type === "query") ?? [];
          const isTx = job.kind === "inTransaction";
          const begins = evs.filter((e) => /^\s*begin/i.test(e.sql));
          const commits = evs.filter((e) => /^\s*commit/i.test(e.sql));
          const rollbacks = evs.filter((e) => /^\s*rollback(?! to)/i.test(e.sql));
          const failedStep = job.failAt >= 0;
          const succeed = scenario === "ok" || (scenario === "commit-error" && !isTx && !job.steps.some((s) => s.nested));
          if (isTx) {
            ctx.expect(begins.length === 1, "tx-begin", "transactional work did not run in exactly one transaction", w);
            if (scenario === "ok") {
              ctx.observe("commits");
              ctx.expect(commits.length === 1 && rollbacks.length === 0, "tx-commit", "successful transactional work was not committed", w);
            } else if (scenario === "work-throws" || scenario === "query-error") {
              ctx.observe("rollbacks");
              ctx.expect(commits.length === 0 && rollbacks.length === 1, "tx-rollback", "failed transactional work was not rolled back", w);
            } else ctx.expect(scenario === "commit-error" ? commits.length === 1 : commits.length === 0, "tx-fault", "a failed transaction was committed", w);
            const bIdx = evs.indexOf(begins[0]);
            const firstWork = evs.findIndex((e) => /tag\d+/.test(e.sql));
            if (firstWork >= 0) ctx.expect(bIdx >= 0 && bIdx < firstWork, "tx-outside", "transactional work ran outside the transaction", w);
            const cIdx = evs.indexOf(commits[0]);
            if (cIdx >= 0) ctx.expect(evs.slice(cIdx + 1).every((e) => !/tag\d+/.test(e.sql)), "tx-after", "transactional work ran after the commit", w);
          }
          if (succeed) {
            ctx.expect(o.ok && Object.is(o.value, job.result), "result", "the work's result was not passed on unchanged", w);
          } else if (scenario === "work-throws") ctx.expect(!o.ok && Object.is(o.error, job.thrown), "error", "the work's error was not passed on unchanged", w);
          else ctx.expect(!o.ok, "failure-hidden", "failed work was reported as a success", w);
          if (scenario === "query-error") ctx.expect(!o.ok && o.error?.message?.includes("bad query"), "query-error", "the statement's error was replaced", w);
          // values
          job.seen.forEach((rows, k) => {
            const { rows: want } = job.steps[k].data;
            if (failedStep && k >= job.failAt) return;
            const exp = want.map((r) => Object.fromEntries(Object.entries(r).map(([c, v]) => [c, v === null && job.conv === true ? undefined : v])));
            ctx.observe("rows", want.length);
            ctx.expect(isDeepStrictEqual(rows.map((r) => ({ ...r })), exp), "row-values", "rows did not arrive with numbers as numbers and nulls as asked", () => ({ got: rows, exp, conv: job.conv }));
          });
        });
      }
      // last-updated bookkeeping goes through the same handles
    } finally {
      await rw.stop();
      await ro.stop();
    }
  },
};

// Virtual time. `VirtualClock` replaces Date and the timer functions; timers fire
// only when the driver advances the clock, so schedules are decided on logical
// steps, never on the wall clock.
import timersPromises from "node:timers/promises";
import timers from "node:timers";
import { syncBuiltinESMExports } from "node:module";

const real = {
  Date: globalThis.Date,
  setTimeout: globalThis.setTimeout,
  clearTimeout: globalThis.clearTimeout,
  setInterval: globalThis.setInterval,
  clearInterval: globalThis.clearInterval,
  setImmediate: globalThis.setImmediate,
  pSetTimeout: timersPromises.setTimeout,
  tSetTimeout: timers.setTimeout,
  tClearTimeout: timers.clearTimeout,
  perfNow: performance.now.bind(performance),
};
export const realTimers = real;

export class VirtualClock {
  constructor(start = Date.UTC(2024, 0, 15, 12, 0, 0)) {
    this.now = start;
    this.t0 = start;
    this.seq = 0;
    this.timers = new Map();
    this.sleeps = []; // every requested delay
    this.fired = 0;
  }
  install({ timersToo = true } = {}) {
    const clock = this;
    class VDate extends real.Date {
      constructor(...a) {
        if (a.length === 0) super(clock.now);
        else super(...a);
      }
      static now() {
        return clock.now;
      }
    }
    Object.defineProperty(VDate, "name", { value: "Date" });
    globalThis.Date = VDate;
    if (timersToo) {
      const set = (fn, ms = 0, ...args) => {
        const id = ++clock.seq;
        const d = Math.max(1, Number(ms) || 0);
        clock.sleeps.push(Number(ms) || 0);
        const h = {
          id,
          at: clock.now + d,
          fn: () => fn(...args),
          unref() { this.unrefd = true; return this; },
          ref() { return this; },
          hasRef() { return true; },
          refresh() { return this; },
          close() { clock.timers.delete(id); },
          [Symbol.toPrimitive]() { return id; },
          [Symbol.dispose]() { clock.timers.delete(id); },
        };
        clock.timers.set(id, h);
        return h;
      };
      const clear = (h) => {
        if (h === undefined || h === null) return;
        const id = typeof h === "object" ? h.id : Number(h);
        clock.timers.delete(id);
      };
      globalThis.setTimeout = set;
      globalThis.clearTimeout = clear;
      globalThis.setInterval = (fn, ms, ...a) => {
        const h = set(() => {}, ms);
        const tick = () => {
          fn(...a);
          h.at = clock.now + Math.max(1, ms);
          clock.timers.set(h.id, h);
        };
        h.fn = tick;
        return h;
      };
      globalThis.clearInterval = clear;
      timers.setTimeout = set;
      timers.clearTimeout = clear;
      timersPromises.setTimeout = (ms, v) => new Promise((r) => set(() => r(v), ms));
      performance.now = () => clock.now - clock.t0;
      syncBuiltinESMExports();
    }
    return this;
  }
  uninstall() {
    globalThis.Date = real.Date;
    globalThis.setTimeout = real.setTimeout;
    globalThis.clearTimeout = real.clearTimeout;
    globalThis.setInterval = real.setInterval;
    globalThis.clearInterval = real.clearInterval;
    timers.setTimeout = real.tSetTimeout;
    timers.clearTimeout = real.tClearTimeout;
    timersPromises.setTimeout = real.pSetTimeout;
    performance.now = real.perfNow;
    syncBuiltinESMExports();
  }
  async settle(turns = 3) {
    for (let i = 0; i < turns; i++) await new Promise((r) => real.setImmediate(r));
  }
  nextTimer() {
    let best;
    for (const t of this.timers.values())
      if (!best || t.at < best.at || (t.at === best.at && t.id < best.id)) best = t;
    return best;
  }
  fireNext() {
    const t = this.nextTimer();
    if (!t) return false;
    this.timers.delete(t.id);
    this.now = Math.max(this.now, t.at);
    this.fired++;
    t.fn();
    return true;
  }
  /** Drive virtual time until the promise settles; returns {status, value|reason, steps}. */
  async drive(p, maxSteps = 5000, turns = 2) {
    let out;
    p.then(
      (value) => (out = { status: "fulfilled", value }),
      (reason) => (out = { status: "rejected", reason }),
    );
    let steps = 0;
    for (;;) {
      await this.settle(turns);
      if (out) return { ...out, steps };
      if (steps++ >= maxSteps) return { status: "pending", steps };
      if (!this.fireNext()) {
        await this.settle(20);
        if (out) return { ...out, steps };
        if (!this.timers.size) return { status: "stuck", steps };
      }
    }
  }
  async advance(ms) {
    const end = this.now + ms;
    for (;;) {
      const t = this.nextTimer();
      if (!t || t.at > end) break;
      this.fireNext();
      await this.settle(1);
    }
    this.now = end;
  }
}

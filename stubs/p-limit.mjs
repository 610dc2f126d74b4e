// p-limit: at most n of the given functions run at the same time, in the order they came.
export default function pLimit(n) {
  const waiting = [];
  let active = 0;
  const next = () => {
    if (active >= n || !waiting.length) return;
    active++;
    const { fn, args, ok } = waiting.shift();
    const r = (async () => fn(...args))();
    ok(r);
    const done = () => {
      active--;
      next();
    };
    r.then(done, done);
  };
  const limit = (fn, ...args) =>
    new Promise((ok) => {
      waiting.push({ fn, args, ok });
      queueMicrotask(next);
    });
  Object.defineProperties(limit, { activeCount: { get: () => active }, pendingCount: { get: () => waiting.length } });
  return limit;
}

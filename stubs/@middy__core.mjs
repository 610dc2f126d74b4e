// The documented behaviour of middy: before/after/onError hooks around a handler.
export default function middy(base) {
  const mws = [];
  const f = async (event, context) => {
    const request = { event, context, response: undefined, error: undefined };
    try {
      for (const m of mws) {
        const r = await m.before?.(request);
        if (r !== undefined) return r;
      }
      request.response = await base(event, context);
      for (const m of mws.toReversed()) {
        const r = await m.after?.(request);
        if (r !== undefined) return r;
      }
    } catch (e) {
      request.response = undefined;
      request.error = e;
      for (const m of mws.toReversed()) {
        const r = await m.onError?.(request);
        if (r !== undefined) return r;
        if (request.response !== undefined) break;
      }
      if (request.response === undefined) throw request.error;
    }
    return request.response;
  };
  f.use = (m) => (mws.push(...[m].flat()), f);
  f.before = (b) => f.use({ before: b });
  f.after = (b) => f.use({ after: b });
  f.onError = (b) => f.use({ onError: b });
  f.handler = (h) => ((base = h), f);
  return f;
}

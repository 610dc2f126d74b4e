// The canary runtime, reduced to what the checkers use. The check supplies
// globalThis.__synthetics = { serve(opts) -> IncomingMessage-like, rethrow, steps:[], config:[] }.
const S = () => globalThis.__synthetics;
const chain = new Proxy({}, { get: (_, k) => (...a) => { S()?.config.push([k, ...a]); return chain; } });
export const getConfiguration = () => chain;
export async function executeHttpStep(name, options, callback, stepConfig) {
  const st = { kind: "http", name, options, done: false };
  S().steps.push(st);
  try {
    const res = await S().serve(options, st);
    if (callback) await callback(res);
    st.ok = true;
  } catch (e) {
    st.ok = false;
    st.error = e;
    if (S().rethrow && !stepConfig?.continueOnHttpStepFailure) throw e;
  } finally {
    st.done = true;
  }
}
export async function executeStep(name, fn, cfg) {
  const st = { kind: "plain", name, cfg, done: false };
  S().steps.push(st);
  try {
    if (S().async) await null;
    await fn();
    st.ok = true;
  } catch (e) {
    st.ok = false;
    st.error = e;
    if (!cfg?.continueOnStepFailure) throw e;
  } finally {
    st.done = true;
  }
}
export default { getConfiguration, executeHttpStep, executeStep };

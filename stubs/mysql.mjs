// Stand-in for mysql: connections are those of globalThis.__mysql1, if a check has set one up.
export const createConnection = (options) => {
  if (globalThis.__mysql1) return globalThis.__mysql1.createConnection(options);
  const none = (...a) => void a.at(-1)?.(new Error("no database"));
  return { connect: none, query: none, end: none, on() {} };
};
export default { createConnection };
